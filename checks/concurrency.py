"""C18, C19: blocking queue and thread pool under controlled schedules against specs/BlockingQueue.tla and ThreadPool.tla."""
import vlib
QMC = """SPECIFICATION MCSpec
CONSTANTS Props = {} N = %d MaxOps = %d Kinds = %s Emit = %s Spurious = %s
VIEW view
INVARIANTS NoLostWakeup
PROPERTIES Atomic Progress
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
PMC = """SPECIFICATION MCSpec
CONSTANTS Props = {} N = %d K = %d Nested = %d Emit = %s
VIEW view
INVARIANTS Accounted NothingAfter
PROPERTIES Terminates
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Props = {"%s"}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
ALL = '{"push","try_push","pop","try_pop","close"}'
OPS = {"push": "um", "try_push": "UM", "pop": "p", "try_pop": "P", "close": "c"}


def plan(s):
    return ",".join(map(str, s)) if s else "-"


def qscript(r, h):
    t = ["T %d %d %d %s" % (r.randint(1, 10**6), r.choice([0, 30]), r.randint(0, 1), plan(h["sched"]))]
    for i, p in enumerate(h["prog"]):
        t.append("W " + " ".join(r.choice(OPS[o]) + (str(10 * i + j + 1) if "push" in o else "") for j, o in enumerate(p)))
    return t


def qrand(r, free=False):
    n = r.randint(2, 5)
    t = ["T %d %d %d %s" % (r.randint(1, 10**6), r.choice([0, 10, 30, 50, 90]), r.random() < .3, plan([r.randint(0, n) for _ in range(r.choice([0, 0, 20, 60]))]))]
    w = "uMpPese" if free and r.random() < .6 else r.choice(["umpP", "uuppp", "umUMpPcse", "upPPs", "umppc", "UMPu"])
    for i in range(n):
        ops = []
        for j in range(r.randint(1, 6)):
            o = r.choice(w)
            if o == "c" and r.random() < .6:
                o = "p"
            ops.append(o + (str(10 * i + j + 1) if o in "umUM" else ""))
        t.append("W " + " ".join(ops))
    return t


def prand(r, free=False):
    n = r.choice([0, 1, 1, 2, 2, 3, 4]) if not free else r.choice([0, 1, 2, 3, 4, 8])
    t = ["T %d %d %d %s %d" % (r.randint(1, 10**6), r.choice([0, 5, 20, 50, 90]), r.random() < .2, plan([r.randint(0, n + 2) for _ in range(r.choice([0, 0, 30, 80]))]), n)]
    c = [0]
    own = {}
    bodies = []

    def new(who, depth):
        c[0] += 1
        i = c[0]
        k = r.choice("wt")
        own.setdefault(who, []).append((k, i))
        b = ["y"] * r.choice([0, 0, 1, 3])
        if depth < 3 and r.random() < (.3 if depth == 0 else .5):
            b += [new("task", depth + 1) for _ in range(r.randint(1, 2))]
            b += ["y"] * r.choice([0, 2])
        if k == "t" and r.random() < .2:
            b.append("x")
        if b:
            bodies.append("B %d %s" % (i, " ".join(b)))
        return k + str(i)

    def ops(who, m):
        o = []
        for _ in range(r.randint(0, m)):
            z = r.random()
            fs = [i for k, i in own.get(who, []) if k == "t"]
            if z < .2 and fs:
                o.append("g%d" % r.choice(fs))
            elif z < .3 and who == "M":
                o.append("s")
            else:
                o.append(new(who, 0))
        return o
    m = r.choice([2, 5, 12])
    t.append("M " + " ".join(ops("M", m)))
    for p in range(r.choice([0, 0, 1, 2])):
        t.append("W " + " ".join(ops("W%d" % p, m)))
    return t + bodies


def c18(c):
    q = c.quick()
    exe, tsan = [c.build("queue", "-DPLAIN", "BlockingQueue", flags=f) for f in ((), ("-DFREE", "-fsanitize=thread"))]
    tests = []
    for n, k, kinds, sp in [(2, 1, ALL, "FALSE"), (2, 2, '{"push","pop","try_pop","close"}', "FALSE"), (3, 1, '{"push","pop","try_pop","close"}', "FALSE")]:
        hs = vlib.printed(c.design("BlockingQueue_MC", (QMC % (n, k, kinds, "TRUE", sp)).replace("PROPERTIES Atomic Progress\n", ""), "emit%d%d" % (n, k)), "TEST")
        m = 700 if q else 5000
        tests += hs if len(hs) <= m else c.rng.sample(hs, m)
    for n, k, kinds in [(2, 2, ALL), (3, 1, ALL)] if q else [(2, 2, ALL), (3, 1, ALL), (3, 2, '{"push","pop","close"}'), (2, 3, ALL), (4, 1, ALL)]:
        c.design("BlockingQueue_MC", QMC % (n, k, kinds, "FALSE", "TRUE"), "deep%d%d" % (n, k))
    c.extra["tests_from_tlc"] = len(tests)
    tr = TR % "C18"
    c.conform(exe, [qscript(c.rng, h) for h in tests], "BlockingQueueTrace", tr, "tlc")
    c.conform(exe, [qrand(c.rng) for _ in range(1000 if q else 8000)], "BlockingQueueTrace", tr, "rand")
    c.conform(tsan, [qrand(c.rng, True) for _ in range(250 if q else 1500)], "BlockingQueueTrace", tr, "tsan",
              env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})


def c19(c):
    q = c.quick()
    exe, tsan = vlib.build("tpool"), vlib.build("tpool", flags=("-DFREE", "-fsanitize=thread"))
    tests = []
    for n, k, ne in [(1, 2, 1), (2, 1, 0)]:
        hs = vlib.printed(c.design("ThreadPool_MC", PMC % (n, k, ne, "TRUE"), "emit%d%d" % (n, k)), "TEST")
        m = 1000 if q else 10000
        for h, sp in (hs if len(hs) <= m else c.rng.sample(hs, m)):
            t = ["T %d 20 0 %s %d" % (c.rng.randint(1, 9999), plan(h), n), "M " + " ".join(c.rng.choice("wt") + str(i + 1) for i in range(k))]
            if sp:
                t.append("B %d %s%d" % (c.rng.randint(1, k), c.rng.choice("wt"), k + 1))
            tests.append(t)
    for n, k, ne in [(2, 2, 1), (3, 2, 1)] if q else [(2, 3, 1), (3, 2, 1), (2, 3, 2), (3, 3, 0), (2, 4, 1)]:
        c.design("ThreadPool_MC", PMC % (n, k, ne, "FALSE"), "deep%d%d%d" % (n, k, ne))
    c.extra["tests_from_tlc"] = len(tests)
    tr = TR % "C19"
    c.conform(exe, tests, "ThreadPoolTrace", tr, "tlc")
    c.conform(exe, [prand(c.rng) for _ in range(2000 if q else 20000)], "ThreadPoolTrace", tr, "rand")
    c.conform(tsan, [prand(c.rng, True) for _ in range(200 if q else 2000)], "ThreadPoolTrace", tr, "tsan",
              env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66"})


CHECKS = {"C18": c18, "C19": c19}
_s = ("the C++ code runs under a scheduler that replaces mutexes, condition variables and threads and follows TLC's schedules or random ones "
      "(deadlocks and lost wake-ups are seen exactly); a ThreadSanitizer build runs freely; every recorded history is validated by TLC.")
INFO = {"C18": ("TLA+ specification BlockingQueue: the mutex/condition-variable algorithm is checked to refine the atomic queue with TLC; linearizability of recorded histories decided by TLC", "Design: 2-4 threads, all interleavings with spurious wake-ups, safety and progress; binding: " + _s),
        "C19": ("TLA+ specification ThreadPool: work-stealing algorithm checked with TLC for exactly-once execution and termination; trace validation of the C++ pool under controlled schedules", "Design: up to 3 workers, 4 tasks and nested submissions; binding: " + _s)}
