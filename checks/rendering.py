"""C29: delimited records and representations of containers."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS FieldLen = %d MaxFields = %d MaxRows = %d Emit = %s
INVARIANT Faithful
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
TYPES = ["s", "ss", "sss", "is", "sid", "dsu", "id", "i", "sssss"]


def hx(cs):
    return "x" + "".join("%02x" % c for c in cs)


def text(r):
    k = r.choice([0, 0, 1, 2, 3, 5, 12, 40])
    a = r.choice([[97, 98, 44, 34, 92, 10], [34], [92], [10, 13, 97], [32, 97, 39, 59, 9], list(range(1, 128)), [44, 97], [195, 169, 44, 97]])
    return [r.choice(a) for _ in range(k)]


def field(r, t):
    if t == "s":
        return hx(text(r))
    if t == "d":
        return r.choice(["0", "-1.5", "1e300", "0.1", "3.25", repr(r.uniform(-100, 100))])
    return str(r.randint(0, 10 ** 9) * (1 if t == "u" else r.choice([1, -1])))


def tlc(rows):
    t = "s" * len(rows[0])
    if any(len(x) != len(rows[0]) for x in rows):
        return None
    return ["T"] + ["R%s %s" % (t, " ".join(hx(f) for f in x)) for x in rows] + ["E 44 34 92 " + hx(rows[0][0])]


def rand(r):
    t = ["T"]
    for _ in range(r.randint(1, 6)):
        ty = r.choice(TYPES)
        t += ["R%s %s" % (ty, " ".join(field(r, k) for k in ty)) for _ in range(r.choice([1, 1, 2, 5]))]
        d, q, x = r.sample([44, 59, 124, 9, 34, 39, 92, 94, 126, 32, 97], 3)
        tx = text(r)
        if r.random() < .7:
            tx = [r.choice([d, q, x, 10, 97, 98]) for _ in tx]
        t.append("E %d %d %d %s" % (d, q, x, hx(tx)))
    for _ in range(r.randint(0, 5)):
        k = r.choice(["vector", "list", "forward_list", "set", "unordered_set", "queue", "array", "tuple", "map", "unordered_map", "flat_map"])
        t.append("S %s %s" % (k, " ".join(str(r.randint(-9, 99)) for _ in range(r.choice([0, 1, 2, 3, 4, 9])))))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("render")
    ts = []
    for n, (fl, mf, mr) in enumerate([(3, 1, 1), (1, 3, 1), (1, 1, 3), (1, 2, 2)] + ([] if q else [(2, 2, 1), (4, 1, 1)])):
        rs = vlib.printed(c.design("Rendering_MC", MC % (fl, mf, mr, "TRUE"), "emit%d" % n), "TEST")
        rs = [x for x in map(tlc, rs) if x]
        ts += c.rng.sample(rs, 300) if q and len(rs) > 300 else rs
    c.extra["tests_from_tlc"] = len(ts)
    if not q:
        c.design("Rendering_MC", MC % (3, 2, 1, "FALSE"), "deep")
    # many small tests per trace
    ts = [["T"] + [x for t in ts[i:i + 8] for x in t[1:]] for i in range(0, len(ts), 8)]
    c.conform(exe, ts, "RenderingTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(400 if q else 8000)], "RenderingTrace", TR, "rand")


CHECKS = {"C29": run}
INFO = {"C29": ("TLA+ specification Rendering (a reader of delimited text and a container grammar) checked with TLC; records and containers printed by the C++ code are read back by the specification",
                "Design: everything the renderer may write for all small records is read back exactly; binding: rows of many types, any delimiter, quote and escape characters, and containers of all supported kinds.")}
