"""C16: transfers of property and per-type views against specs/Transfers.tla."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Props = {"C16"} MaxOps = %d MaxQ = %d Emit = %s
VIEW view
INVARIANTS Conserved NonNegative
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Props = {"C16"}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def script(h):
    t = ["T sdp FI", "H 2 1 2", "H 2 2 1"]
    for x in h:
        if x[0] == 0:
            t.append("K %d 1 %d" % (x[1], x[2]))
        elif x[0] == 1:
            _, n, a, b, q1, q2 = x
            t.append("S %d %d %d %s" % (n, a, b, " ".join(s for s in ("1:%d" % q1, "2:1" if q2 else "") if s)))
        elif x[0] == 2:
            t.append("D %d" % x[1])
        else:
            t.append("B %d %d" % (x[1], x[2]))
    return t


def rand(r, n):
    own = "".join(r.choice("psdtdt") for _ in range(r.randint(2, 5)))
    kinds = "".join(r.choice("FFUIPI") for _ in range(r.randint(1, 6)))
    big = r.random() < .15
    t = ["T %s %s" % (own, kinds)]
    sees = lambda o, p: (kinds[p] == "F" and own[o] in "sdt") or (kinds[p] == "U" and own[o] == "t") or (kinds[p] == "I" and own[o] in "dt")
    amt = lambda: r.randint(0, 2**30) if big else r.randint(0, 6)
    for p, k in enumerate(kinds):
        if k == "I":
            t.append("H %d %d 1" % (r.randrange(len(own)) + 1, p + 1))
        else:
            for o in range(len(own)):
                if r.random() < .6:
                    a = amt()
                    if a or sees(o, p):
                        t.append("H %d %d %d" % (o + 1, p + 1, a))
    hold = {}
    k, open_ = 0, []
    for _ in range(n):
        z = r.random()
        if z < .12:
            c = [(o, p) for o in range(len(own)) for p in range(len(kinds)) if sees(o, p) and kinds[p] != "I"]
            if c:
                o, p = r.choice(c)
                t.append("K %d %d %d" % (o + 1, p + 1, amt() if not big else r.randint(0, 1000)))
        elif z < .6:
            k += 1
            a = r.randrange(len(own))
            b = a if r.random() < .12 else r.randrange(len(own))
            ps = r.sample(range(len(kinds)), r.randint(1, len(kinds)))
            it = ["%d:%d" % (p + 1, 1 if kinds[p] == "I" else (amt() if not big else r.choice([0, 1, 2**20, r.randint(0, 2**29)]))) for p in ps]
            t.append("S %d %d %d %s" % (k, a + 1, b + 1, " ".join(it)))
            if a != b:
                open_.append((k, b))
        elif open_ and z < .92:
            i = r.randrange(len(open_))
            t.append("D %d" % open_.pop(i)[0])
        elif open_:
            t.append("B %d %d" % (r.choice(open_)[0], r.randrange(len(own)) + 1))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("transfer")
    out = c.design("Transfers_MC", MC % (3, 2, "TRUE"), "emit")
    hs = vlib.printed(out, "TEST")
    deep = c.rng.sample(hs, min(len(hs), 2500 if q else 20000))
    c.design("Transfers_MC", MC % (4 if q else 5, 1, "FALSE"), "deep")
    c.conform(exe, [script(h) for h in deep], "TransfersTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng, c.rng.choice([6, 20, 60])) for _ in range(400 if q else 6000)], "TransfersTrace", TR, "rand")


CHECKS = {"C16": run}
INFO = {"C16": ("TLA+ specification Transfers checked with TLC; replay of TLC-enumerated behaviours and trace validation of the C++ owners",
                "Design: three owners with different views, fungible and infungible property, all histories of takes, multi-item sends, self-transfers, "
                "deliveries and bystanders up to 4-5 operations; binding: those histories and random ones with up to 5 owners and 6 properties of four kinds.")}
