"""C30: archives."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Slots = {1, 2} Kinds = {"a", "b"} Values = {"1", "2"} MaxOps = %d Emit = %s
INVARIANT InOrder
PROPERTY Frame Saving
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Slots = {1, 2, 3, 4}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
KINDS = ["quantity", "price", "rational", "urational", "rate", "exchange_rate", "interest_rate", "quote", "agent_id", "property_id",
         "interval", "currency", "country", "lei", "jurisdiction", "share_class", "policy", "header", "message", "logout", "status",
         "announcement", "record", "transfer", "impact_quote", "walras_quote", "impact_order", "properties", "tuple", "single",
         "prices", "quotes", "property", "timing"]
BIG = [0, 1, 2, 3, 127, 128, 255, 256, 32767, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 10 ** 12, 2 ** 53 + 1, 2 ** 62, 2 ** 63 - 1, 2 ** 63, 2 ** 64 - 1]


def number(r):
    x = r.random()
    if x < .4:
        return r.randint(0, 9)
    if x < .6:
        return -r.choice([1, 2, 9, 1000, 2 ** 31, 2 ** 40, 2 ** 63 - 1, r.randint(1, 10 ** 9)])
    if x < .8:
        return r.choice(BIG)
    return r.randint(0, 2 ** 64 - 1)


def numbers(r):
    return " ".join(str(number(r)) for _ in range(r.choice([1, 2, 3, 7, 11, 19, 23])))


def head(r):
    return "T " + r.choice(["text", "text", "binary"])


def tlc(r, hist, kinds):
    """a schedule of the specification with real types for its abstract ones"""
    val = {}
    t = [head(r)]
    for o in hist:
        if o[0] == "N":
            v = val.setdefault((o[2], o[3]), numbers(r))
            t.append("N %d %s %s" % (o[1] - 1, kinds[o[2]], v))
        elif len(o) == 2:
            t.append("%s %d" % (o[0], o[1] - 1))
        else:
            t.append(o[0])
    return t


def rand(r):
    t = [head(r)]
    few = r.sample(KINDS, r.randint(1, 4))
    for _ in range(r.randint(1, 3)):
        kind = [None] * 4
        arch = []
        for s in range(4):
            kind[s] = r.choice(few)
            t.append("N %d %s %s" % (s, kind[s], numbers(r)))
        for _ in range(r.randint(1, 8)):
            s = r.randrange(4)
            arch.append(kind[s])
            t.append("S %d" % s)
            if r.random() < .3:
                s = r.randrange(4)
                kind[s] = r.choice(few)
                t.append("N %d %s %s" % (s, kind[s], numbers(r)))
        t.append("R")
        for k in arch:
            c = [s for s in range(4) if kind[s] == k]
            s = r.choice(c) if c else r.randrange(4)
            if not c or r.random() < .3:
                kind[s] = k
                t.append("N %d %s %s" % (s, k, numbers(r)))
            t.append("L %d" % s)
        t.append("W")
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("archive")
    ts = []
    hs = vlib.printed(c.design("Archive_MC", MC % (5, "TRUE"), "emit"), "TEST")
    hs += [h for h in vlib.printed(c.design("Archive_MC", MC % (6, "TRUE"), "emit6"), "TEST")] if not q else []
    c.extra["schedules_from_tlc"] = len(hs)
    for k in KINDS:
        for h in c.rng.sample(hs, 12 if q else 150):
            ts.append(tlc(c.rng, h, {"a": k, "b": c.rng.choice(KINDS)}))
    if not q:
        c.design("Archive_MC", MC % (7, "FALSE"), "deep")
    c.conform(exe, ts, "ArchiveTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(300 if q else 6000)], "ArchiveTrace", TR, "rand")


CHECKS = {"C30": run}
INFO = {"C30": ("TLA+ specification Archive (objects, an archive, reading position) checked with TLC; schedules of the specification and random ones run with every archivable type, all objects observed after every operation",
                "Design: what is read is a prefix of what was written, saving changes nothing, for all schedules up to the bound; binding: text and binary archives of the value, identifier, message and collection types.")}
