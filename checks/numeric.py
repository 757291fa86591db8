"""C31: numeric helpers."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS N = %d Emit = %s
INVARIANT SizeIsCount
INVARIANT DenseSize
INVARIANT Allocatable
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Pinned = %s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
# the sizes that test_mathematics_interval.cpp pins
PINNED = [["T", "I %s %s 1 %d" % (t, b, h)] for b in ("cc", "oo") for t, hs in (("int", (1, 2, 3)), ("double", (1,))) for h in hs]


def rand(r):
    t = ["T"]
    for _ in range(r.randint(1, 12)):
        k = r.choice("IIIPSEAAAGM")
        if k == "I":
            ty = r.choice(["int", "long", "unsigned", "double"])
            lo = r.choice([0, 1, 3, 1000, 10 ** 6] + ([] if ty == "unsigned" else [-1, -2, -7, -10 ** 6]))
            t.append("I %s %s %d %d" % (ty, r.choice(["cc", "co", "oc", "oo"]), lo, max(0 if ty == "unsigned" else -10 ** 9, lo + r.randint(-3, 7))))
        elif k == "P":
            p = r.randint(0, 30)
            x = r.randint(0, min(1000, int((2 ** 31 - 1) ** (1. / p) + 1e-9))) if p else r.randint(0, 1000)
            t.append("P %d %d" % (x, p))
        elif k == "S":
            t.append("S " + " ".join(str(r.randint(-99, 99)) for _ in range(8)))
        elif k == "E":
            t.append("E " + " ".join(str(r.randint(-99, 99)) for _ in range(r.randint(0, 9))))
        elif k == "A":
            u = r.choice([2, 4, 8, 64])
            t.append("A %d %s" % (u, " ".join(str(r.choice([u // 2, r.randint(0, u), r.randint(0, 3 * u)])) for _ in range(r.randint(1, 8)))))
        elif k == "G":
            t.append("G %d %d" % (r.randint(1, 4), r.randint(1, 7)))
        else:
            n = r.randint(1, 6)
            e = [r.randint(0, 8) for _ in range(n)]
            e[0] += -sum(e) % n
            t.append("M " + " ".join(map(str, e)))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("numeric")
    fs = vlib.printed(c.design("Numeric_MC", MC % (4, "TRUE"), "emit"), "TEST")
    if not q:
        c.design("Numeric_MC", MC % (7, "FALSE"), "deep")
    ts = [["T"] + ["A 4 " + " ".join(map(str, f)) for f in fs[i:i + 40]] for i in range(0, len(fs), 40)]
    for ty in ("int", "long", "unsigned", "double"):
        for b in ("cc", "co", "oc", "oo"):
            ts.append(["T"] + ["I %s %s %d %d" % (ty, b, lo, hi) for lo in range(0, 5) for hi in range(0, 6)])
    c.extra["tests_from_tlc"] = len(fs)
    for i in range(0, len(PINNED), 2):
        c.conform(exe, PINNED[i:i + 2], "NumericTrace", TR % "FALSE", "pinned")
    c.conform(exe, ts, "NumericTrace", TR % "TRUE", "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(400 if q else 10000)], "NumericTrace", TR % "TRUE", "rand")


CHECKS = {"C31": run}
INFO = {"C31": ("TLA+ specification Numeric (sizes of intervals, powers, slices, allocations, grids) checked with TLC; calls of the C++ helpers are judged by it",
                "Design: sizes of intervals are counts of their elements and allocations exist, for all small bounds and fractions; binding: all interval types and closures, all small bounds, random calls of all helpers.")}
