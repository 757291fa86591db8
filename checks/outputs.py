"""C23: outputs, streams and logs."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Names = {%s} Streams = %d MaxOps = %d Emit = %s
INVARIANTS Kept NoMixing Written NothingElse Ordered
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
SEV = ["trace", "notice", "warning", "error"]


def looks(names, k):
    return ["V " + n for n in names] + ["L %d" % s for s in range(1, k + 1)]


def otlc(r, hist):
    kind = r.choice([{"int": "int", "pair": "pair"}, {"int": "text", "pair": "pair"}, {"int": "real", "pair": "pair"}])
    t = ["T " + r.choice(SEV), "O " + r.choice(["memory", "file"]), "O memory"]
    names = set()
    for i, op in enumerate(hist):
        if op[0] == "create":
            t.append("C %s %s" % (op[1], kind[op[2]]))
            names.add(op[1])
        elif op[0] == "attach":
            t.append("A %s %d" % (op[1], op[2]))
        else:
            t.append("P %s %d %d %d" % (op[1], i, r.randint(-9, 99), r.randint(-9, 99)))
    return t + looks(sorted(names), 2)


def orand(r):
    names = ["alpha", "beta", "gamma", "alph", "a"][:r.randint(1, 5)]
    t = ["T " + r.choice(SEV)]
    k = 0
    for i in range(r.randint(5, 50)):
        z = r.random()
        n = r.choice(names)
        if z < .2 or i < 2:
            t.append("C %s %s" % (n, r.choice(["int", "pair", "text", "real"])))
        elif z < .3 and k < 4:
            t.append("O " + r.choice(["memory", "memory", "file", "prefixed"]))
            k += 1
        elif z < .42:
            t.append("A %s %d" % (n, r.randint(1, max(1, k))))
        elif z < .47:
            t.append("B %s %d" % (n, r.choice([0, 0, 1])))
        elif z < .78:
            t.append("P %s %d %d %d" % (n, r.choice([0, 1, i, i, 2 ** 63]), r.randint(-1000, 1000), r.randint(-3, 3)))
        elif z < .88:
            t.append("S %s %s %d" % (r.choice(SEV), r.choice("mm r".split() + ["m"]), r.randint(0, 99)))
        else:
            t.append(r.choice(["V " + n, "L %d" % r.randint(1, max(1, k)), "M"]))
    return t + looks(names, k) + ["M"]


def run(c):
    q = c.quick()
    exe = vlib.build("outputs")
    hs = vlib.printed(c.design("Outputs_MC", MC % ('"a", "b"', 2, 4, "TRUE"), "emit"), "TEST")
    c.design("Outputs_MC", MC % ('"a", "b"', 2, 6 if q else 8, "FALSE"), "deep")
    c.extra["tests_from_tlc"] = len(hs)
    m = 1500 if q else 20000
    if len(hs) > m:
        hs = c.rng.sample(hs, m)
    c.conform(exe, [otlc(c.rng, h) for h in hs], "OutputsTrace", TR, "tlc")
    c.conform(exe, [orand(c.rng) for _ in range(400 if q else 8000)], "OutputsTrace", TR, "rand")
    # every severity, filter and way of writing a message
    logs = []
    for f in SEV:
        for w in "mcr":
            logs.append(["T " + f] + ["S %s %s %d" % (s, w, i) for i, s in enumerate(SEV + SEV)] + ["M"])
    c.conform(exe, logs, "OutputsTrace", TR, "log")


CHECKS = {"C23": run}
INFO = {"C23": ("TLA+ specification Outputs checked with TLC; replay of TLC-enumerated histories in the C++ code and trace validation of kept values, stream and file contents and log messages",
                "Design: each value kept once under its own name, each line written once per attachment, in order, for all short histories; binding: TLC-enumerated and random histories over several outputs, kinds, streams in memory and on file, and logs with every filter.")}
