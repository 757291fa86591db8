"""C24: experiment designs and parameters."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS DMax = %d NMax = %d Seeds = {%s} MaxOps = %d Emit = %s
VIEW view
INVARIANTS Distinct Balanced Bounds
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def space(r, k):
    out = []
    for _ in range(k):
        lo = r.choice([0, 1, -3, 100, 0.1, -0.7, 1e-3, r.uniform(-10, 10)])
        out.append("%r:%r" % (lo, lo + r.choice([1, 2, 6, 0.3, 1e6, 1 / 3, r.uniform(0.01, 50)])))
    return out


def call(r, x, reps=1):
    m, a = x["m"], x["a"]
    if m == "grid":
        return ["grid " + " ".join(map(str, a))] * reps
    if m == "improved":
        return ["improved %d %d %d %d" % (a[0], a[1], x["s"], r.choice([1, 1, 2, 5]))]
    return ["%s %d %d" % (m, a[1], x["s"])] * reps


def tlc(r, h):
    # all calls of a test share the space: one test per number of dimensions
    out = {}
    for x in h:
        d = len(x["a"]) if x["m"] == "grid" else x["a"][0]
        if x["m"] == "improved" and d == 0:
            continue
        out.setdefault(d, []).extend(call(r, x))
        if x["m"] == "latin":
            out[d].append("random %d %d" % (x["a"][1], x["s"]))
    return [["T " + " ".join(space(r, d))] + v + [v[0]] for d, v in out.items()]


def rand(r):
    d = r.choice([0, 1, 1, 2, 2, 3, 4])
    t = ["T " + " ".join(space(r, d))]
    calls = []
    for _ in range(r.randint(1, 4)):
        z = r.random()
        if z < .3:
            calls.append("grid " + " ".join(str(r.choice([1, 2, 3, 4, 5] if d > 2 else [0, 1, 2, 3, 5, 7, 10, 50 if d == 1 else 6])) for _ in range(d)))
        elif z < .6:
            calls.append("latin %d %d" % (r.choice([0, 1, 2, 3, 7, 10, 50, 99]), r.randint(0, 3)))
        elif z < .75:
            calls.append("random %d %d" % (r.choice([0, 1, 2, 30]), r.randint(0, 3)))
        else:
            calls.append("improved %d %d %d %d" % (r.choice([1, 2, 3, 8]), r.choice([1, 2, 3, 4, 7, 16, 40]), r.randint(0, 9), r.choice([1, 2, 5])))
    t += calls + [r.choice(calls) for _ in range(2)]
    if r.random() < .5:
        t.append("par %d %d %d %d %d" % tuple(r.choice([0, 1, 2, 7, 1000, 2 ** 32 - 1]) for _ in range(5)))
        names = ["sample", "start", "end", "threads", "verbosity", "rate", "name", "none", "Sample"]
        for _ in range(r.randint(2, 12)):
            n, ty = r.choice(names), r.choice(["whole", "real", "text"])
            if r.random() < .3:
                ty = r.choice([ty, ty, "range"])
                t.append("set %s %s %s" % (n, ty, {"whole": str(r.randint(0, 2 ** 64 - 1)), "real": repr(r.uniform(-5, 5)), "text": "t%d" % r.randint(0, 99), "range": "0"}[ty]))
            else:
                t.append("get %s %s" % (n, r.choice([ty, "whole"])))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("sampler")
    hs = vlib.printed(c.design("Sampler_MC", MC % (3, 3, "1, 2", 1, "TRUE"), "emit"), "TEST")
    c.design("Sampler_MC", MC % ((2, 3, "1", 2, "FALSE") if q else (2, 3, "1, 2", 2, "FALSE")), "deep")
    hs = [x for h in hs for x in h]
    seen = {}
    for x in hs:
        seen[str(x)] = x
    hs = [seen[k] for k in sorted(seen)]
    c.extra["tests_from_tlc"] = len(hs)
    ts = [t for i in range(0, len(hs), 10) for t in tlc(c.rng, hs[i:i + 10])]
    c.conform(exe, ts, "SamplerTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(300 if q else 4000)], "SamplerTrace", TR, "rand")


CHECKS = {"C24": run}
INFO = {"C24": ("TLA+ specification Sampler checked with TLC; replay of TLC-enumerated sizes and random designs in the C++ code and trace validation of the returned points",
                "Design: grids are balanced and Latin designs have each level once per dimension, for all small sizes; binding: points returned by every sampler for TLC-enumerated and random sizes, spaces and seeds; named parameters read back or refused.")}
