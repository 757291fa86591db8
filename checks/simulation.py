"""C11-C15, C33: the simulation engine against specs/Simulation.tla."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Props = {"C11","C12","C13","C14","C15"} NA = %d Budget = %d Delays = %s Dts = %s MTypes = %s Dynamic = %s Strangers = %s
 Emit = %s Order = "%s" End = %d
VIEW view
INVARIANTS ExactlyOnce Conserved NothingOverdue EverybodyRan
PROPERTIES Forward Terminates
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANTS Props = {"%s"} Strict = %s\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
#          NA B  delays+1    dts          types    dyn     strangers order      end
MODELS = {
    "C11": [(2, 2, "{0,1,3}", "{1,99}", "{0,2}", "FALSE", "{9}", "random", 4)],
    "C12": [(2, 2, "{0,1,2}", "{0,1,99}", "{0,1}", "FALSE", "{}", "in_order", 3)],
    "C13": [(2, 2, "{0,2,3}", "{0,1,2,98,99}", "{0}", "FALSE", "{}", "random", 4)],
    "C14": [(3, 2, "{1,2}", "{0,1,99}", "{0}", "FALSE", "{}", "random", 3)],
    "C15": [(2, 2, "{1,2}", "{1,99}", "{0}", "TRUE", "{}", "random", 3)],
    "C33": [(2, 2, "{1,2}", "{0,1,99}", "{0}", "TRUE", "{9}", "random", 3)],
}
LIFE = """SPECIFICATION MCSpec
CONSTANTS Strict = TRUE End = %d MaxBacklog = %d
INVARIANTS Paired TerminatedOnce NoBacklog
PROPERTY Ends
"""
DEEP = {
    "C11": [(2, 3, "{0,1,3}", "{0,1,99}", "{0}", "FALSE", "{9}", "random", 4), (3, 2, "{0,1,2}", "{1,99}", "{0,2}", "FALSE", "{}", "random", 3)],
    "C12": [(2, 3, "{0,1,2}", "{1,99}", "{0,1}", "FALSE", "{}", "in_order", 3), (3, 2, "{1,2}", "{0,1,99}", "{0,1}", "FALSE", "{}", "in_order", 3)],
    "C13": [(2, 3, "{0,2,3}", "{0,1,2,98,99}", "{0}", "FALSE", "{}", "random", 4), (3, 3, "{2}", "{1,2,99}", "{0}", "FALSE", "{}", "random", 4)],
    "C14": [(3, 3, "{1,2}", "{1,99}", "{0}", "FALSE", "{}", "random", 3)],
    "C15": [(2, 3, "{1,2}", "{1,99}", "{0}", "TRUE", "{9}", "random", 3), (3, 2, "{1,2}", "{0,1,99}", "{0}", "TRUE", "{}", "random", 3)],
    "C33": [(2, 3, "{1,2}", "{1,99}", "{0}", "TRUE", "{9}", "random", 3)],
}


def script(h, mode, threads, order, end, na, cb="0:0 0:5 1:3"):
    t = ["T %s %s %s 0 %d 7" % (mode, threads, order, end)] + ["A " + cb] * na + ["N " + cb]
    for a, d, rd, s, new, gone, n in h:
        b = "B %d %s" % (a, {99: "U", 98: "P"}.get(d, str(d)))
        for x in s:
            b += " s:%d:%d:%d" % (x["to"], x["delay"], x["type"])
        if new:
            b += " c:1"
        for g in gone:
            b += " d:%d" % g
        t.append(b)
        if n:
            t.append("R %d " % a + " ".join(["U" if rd == 99 else str(rd)] * n))
    return t


def rand(r, threads, dynamic, big):
    mode = r.choice(["run", "env", "model", "model"])
    start = r.choice([0, 0, 0, 1, 3])
    end = start + r.randint(2, 15)
    na = r.randint(1, 12 if "," in threads else 5)
    order = r.choice(["in_order", "random"])
    t = ["T %s %s %s %d %d %d" % (mode, threads, order, start, end, r.randint(0, 3))]
    prios = [-128, -127, -5, -1, 0, 0, 0, 1, 5, 126, 127]
    pool = r.sample(prios, 3)

    def cbs():
        return " ".join("%d:%d" % (r.randint(0, 2), r.choice(pool)) for _ in range(r.randint(0, 5)))
    nn = r.randint(1, 3) if dynamic else 0
    t += ["A " + cbs() for _ in range(na)] + ["N " + cbs() for _ in range(nn)]
    chatty = r.random() < .4
    target = r.randrange(na)
    wild = r.random() < .12
    for a in range(na + nn):
        for _ in range(r.randint(0, 8 if big else 5)):
            z = r.random()
            d = "U" if z < .15 else str(r.choice([0, 1, 1, 1, 2, 2, 3, 5, 30])) if z < .99 or "," in threads or not wild else "P"
            b = "B %d %s" % (a, d)
            for _ in range(r.choice([0, 0, 1, 2]) if not chatty else r.randint(0, 5)):
                to = target if r.random() < .5 else r.randrange(na)
                if dynamic and r.random() < .1:
                    to = r.randrange(na + nn)
                if wild and "," not in threads and r.random() < .1:
                    to = 77
                b += " s:%d:%d:%d" % (to, r.choice([0, 0, 0, 1, 1, 2, 3, 6, -1, -2]), r.randint(0, 2))
            if dynamic and r.random() < .15:
                b += " c:%d" % r.randint(1, 2)
            if dynamic and r.random() < .12:
                b += " d:%d" % r.randrange(na + nn)
            t.append(b)
        if r.random() < .6:
            t.append("R %d " % a + " ".join(r.choice(["U", "U", "0", "1", "2", "4"]) if k == 0 else r.choice(["U", "1", "2", "5"]) for k in range(r.randint(1, 4))))
    if mode == "model":
        t.append("X " + " ".join(str(r.choice([0, 0, 0, 1, 2])) for _ in range(6)))
    return t


def run(c, pid):
    q = c.quick()
    exe = vlib.build("sim")
    cfg = TR % (pid, "TRUE" if pid == "C33" else "FALSE")
    tests = []
    if pid == "C33":
        c.design("Lifecycle_MC", LIFE % ((6, 3) if q else (12, 6)), "life")
    for m in (MODELS[pid] if q else MODELS[pid] + DEEP[pid]):
        out = c.design("Simulation_MC", MC % (m[:7] + ("TRUE",) + m[7:]), "%d-%d" % (m[0], m[1]), workers=8)
        hs = vlib.printed(out, "TEST")
        n = 500 if q else 3000
        if len(hs) > n:
            hs = c.rng.sample(hs, n)
        for i, h in enumerate(hs):
            tests.append(script(h, "run" if i % 2 else "env", {"C14": "1,1,2,3", "C12": "1,1"}.get(pid, "1"), m[7], m[8], m[0]))
    c.extra["tests_from_tlc"] = len(tests)
    c.conform(exe, tests, "SimulationTrace", cfg, "tlc")
    n = 250 if q else 2500
    th = ["1"] if pid not in ("C12", "C14") else ["1", "1,1"] if pid == "C12" else ["1,2", "1,1,2,8", "1,3,5", "1,1", "1,4,16"]
    c.conform(exe, [rand(c.rng, c.rng.choice(th), pid in ("C15", "C33") or (pid in ("C11", "C13") and c.rng.random() < .2), i % 3 == 0) for i in range(n)],
              "SimulationTrace", cfg, "rand")
    if pid == "C14":
        # data races are behaviours outside the specification: the sanitizer ends the run, which no trace may contain
        tx = vlib.build("sim", flags=("-fsanitize=thread",))
        rt = [rand(c.rng, "1,4,3", False, False) for i in range(24 if q else 200)]
        c.conform(tx, rt, "SimulationTrace", cfg, "tsan", env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0"})


CHECKS = {p: (lambda c, p=p: run(c, p)) for p in MODELS}
_n = ("Design: every schedule of 2-3 agents with up to 2-3 free decisions (wake-ups, sends early/late, callbacks, creation) model-checked with "
      "safety and termination; binding: the explored behaviours and random scenarios of up to 12 agents run in the real engine and every round is "
      "validated against the specification.")
INFO = {p: ("TLA+ specification Simulation checked with TLC; replay of TLC-enumerated behaviours and trace validation of the C++ engine", _n) for p in MODELS}
INFO["C33"] = ("TLA+ specifications Simulation and Lifecycle checked with TLC; trace validation of the hooks of environment and model", _n)
INFO["C14"] = (INFO["C14"][0] + "; single- and multi-threaded reruns compared, ThreadSanitizer build for race-free rounds", _n)
