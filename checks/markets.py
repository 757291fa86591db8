"""C26: impact-function markets."""
import json
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Traded = {%s} Others = {%s} People = {%s} Qs = {%s} Rounds = %d Emit = %s
VIEW view
INVARIANTS AllQuoted OnlyTraded Complete Waits
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def quotes(r, n):
    return " ".join("%d:%d" % (r.choice([1, 2, 100, 12345, 10 ** 6, r.randint(1, 10 ** 6)]), r.choice([1, 1, 2, 10, 1000])) for _ in range(n))


def line(v):
    return "%d:%s:%d" % (v["p"], v["side"][0], v["q"])


def tlc(r, hist, traded, people):
    t = ["T direct %d %d %s" % (people, r.choice([1, 2, -3, 1000]), quotes(r, traded))]
    now = 2
    for k, os in enumerate(hist):
        for clear in (False, True):
            if clear and not os:
                continue
            for o in r.sample(os, len(os)):
                t.append("O %d %d %s" % (o["from"], now, " ".join(line(v) for v in o["vols"])))
            t.append("C" if clear else "A %d %d" % (now, now + r.choice([1, 1, 5])))
        now += r.choice([1, 1, 4]) if (k and os) or k == 0 else 0
    return t


def order(r, props, qs):
    return " ".join("%d:%s:%d" % (p, r.choice("bs"), r.choice(qs)) for p in r.sample(props, r.randint(0, len(props))))


def rand(r):
    traded, people = r.randint(0, 4), r.randint(0, 5)
    props = list(range(1, traded + 1)) + [9, 8][:r.randint(0, 2)]
    qs = r.choice([[0, 1, 2], [1, 5, 1000], [100000, 99999, 1]])
    t = ["T direct %d %d %s" % (people, r.choice([1, 2, -3, 1000]), quotes(r, traded))]
    now = r.choice([0, 0, 1, 2, 50])
    for _ in range(r.randint(1, 5)):
        if r.random() < .15:
            t += ["O %d %d %s" % (m, max(0, now - r.randint(1, 3)), order(r, props, qs)) for m in range(1, people + 1)] if now > 0 else []
        else:
            t += ["O %d %d %s" % (m, now, order(r, props, qs)) for m in r.sample(range(1, people + 1), r.randint(0, people))]
        if r.random() < .3:
            t.append("C")
        else:
            t.append("A %d %d" % (now, now + r.choice([1, 3])))
            now += r.choice([0, 1, 1, 2])
    return t


def sim(r):
    traded, people = r.randint(1, 4), r.randint(1, 5)
    props = list(range(1, traded + 1)) + [9, 8][:r.randint(0, 2)]
    steps = r.randint(1, 7)
    t = ["T sim %d %d %s" % (people, r.choice([1, -2]), quotes(r, traded))]
    for m in range(1, people + 1):
        t += ["P %d %s" % (m, order(r, props, [0, 1, 2, 50])) for _ in range(r.randint(0, steps))]
    return t + ["X 0 %d" % steps]


def run(c):
    q = c.quick()
    exe = vlib.build("impact")
    ts = []
    for n, (tr, ot, pe, qs, rounds) in enumerate([("1, 2", "", "1, 2", "1, 2", 2), ("1", "9", "1, 2", "0, 1, 3", 2), ("1", "9", "1", "1, 2", 4)]):
        hs = vlib.printed(c.design("Impact_MC", MC % (tr, ot, pe, qs, rounds, "TRUE"), "emit%d" % n), "TEST")
        c.extra["tests_from_tlc_%d" % n] = len(hs)
        if q and len(hs) > 700:
            hs = c.rng.sample(hs, 700)
        ts += [tlc(c.rng, h, len(tr.split(",")), len(pe.split(","))) for h in hs]
    if not q:
        c.design("Impact_MC", MC % ("1, 2, 3", "9", "1, 2", "1, 2", 2, "FALSE"), "deep")
    c.conform(exe, ts, "ImpactTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(400 if q else 5000)], "ImpactTrace", TR, "rand")
    c.conform(exe, [sim(c.rng) for _ in range(150 if q else 2000)], "ImpactTrace", TR, "sim")


WMC = """SPECIFICATION MCSpec
CONSTANTS People = {%s} Ws = {%s} Ss = {%s} Lot = %d Value = %d Long0 = %d Rounds = %d Emit = %s
VIEW view
INVARIANTS Conserved OneSided CashConserved
PROPERTIES Breaker Forward
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""


def wline(p, kind, w, s, l=0, h=0, j=1, c=0):
    return "%d:%s:%d:%d:%d:%d:%d:%d" % (p, kind, w, s, l, h, j, c)


def wtlc(r, hist, value, lot):
    t = ["T direct 2 %d:%d" % (value, lot), "A 0 1"]
    now = r.choice([0, 1, 5])
    for rnd in hist:
        for o in r.sample(rnd, len(rnd)):
            x = r.choice([0, 1, 2, 50])
            l, h = r.choice([(0, 0), (x, 0), (0, x)])
            t.append("O %d %d %s" % (o["m"], now, wline(1, "a", o["w"], o["s"], l, h)))
        t.append("A %d %d" % (now, now + 1))
        now += 1
    return t


def worders(r, traded, people, mode):
    """One round: demands of a random set of participants; the clearing price of a property lies within a factor 8 of its quote."""
    out = {}
    for p, (v, lot) in traded.items():
        if mode == "sparse" and r.random() < .3:
            continue
        n = r.randint(1, len(people))
        for m in r.sample(people, n):
            s = r.choice([0, 1, 3, 10, 500, r.randint(1, 1000)]) if mode not in ("short", "wild") else r.randint(0, 20)
            # cents of wealth, around the value of s at the present price
            base = max(1, s) * v / lot
            w = int(base * r.choice([.2, .5, .9, 1, 1, 1.1, 2, 5, r.uniform(.1, 8)])) if r.random() < .9 else 0
            if mode == "wild":
                w = int(base * r.choice([0, .01, 1, 20, 100]))
            w = min(w, 2 * 10 ** 8 // max(1, lot) // 10)
            x = r.choice([0, 1, 5, s, s, 2 * s])
            l, h = r.choice([(0, 0), (x, 0), (0, x)])
            kind = "h" if mode == "curved" and r.random() < .6 else "a"
            j, c = 1, 0
            if mode == "coupled" and len(traded) > 1 and s > 4 and r.random() < .5:
                j = r.choice([k for k in traded if k != p])
                c = r.randint(1, max(1, int(s * (v / lot) / (traded[j][0] / traded[j][1]) / 4)))
            out.setdefault(m, []).append(wline(p, kind, w, s, l, h, j, c))
    return out


def wtraded(r, n):
    return {p: (r.choice([100, 100, 57, 1000, 12345, r.randint(20, 12000)]), r.choice([1, 1, 1, 2, 10])) for p in range(1, n + 1)}


def wrand(r, mode):
    n, people = r.choice([1, 1, 2, 2, 3, 4]), list(range(1, r.randint(1, 5) + 1))
    tr = wtraded(r, n)
    t = ["T direct %d %s" % (len(people), " ".join("%d:%d" % tr[p] for p in sorted(tr)))]
    now = r.choice([0, 0, 1, 5, 40])
    for _ in range(r.randint(1, 4)):
        if r.random() < .8:
            # orders of an earlier round do not count
            sent = now - r.choice([1, 1, 2, 5]) if now > 4 and r.random() < .15 else now
            for m, ls in worders(r, tr, people, mode).items():
                t.append("O %d %d %s" % (m, sent, " ".join(r.sample(ls, len(ls)))))
        t.append("A %d %d" % (now, now + r.choice([1, 1, 4])))
        now += r.choice([0, 1, 1, 2])
    return t


def wsim(r):
    n, people = r.randint(1, 3), list(range(1, r.randint(1, 4) + 1))
    tr = wtraded(r, n)
    end = r.randint(1, 6)
    t = ["T sim %d %s" % (len(people), " ".join("%d:%d" % tr[p] for p in sorted(tr)))]
    for m in people:
        t.append("H %d %d %s" % (m, 10 ** 9, " ".join(str(r.choice([0, 10, 500])) for _ in tr)))
    for _ in range(r.randint(1, 3)):
        o = worders(r, tr, people, r.choice(["full", "short", "sparse"]))
        for m in people:
            t.append("P %d %s" % (m, " ".join(o.get(m, []))))
    return t + ["X %d %d" % (0, end)]


def told(r):
    t = ["T direct 0 100:1"]
    now = r.randint(0, 3)
    for _ in range(r.randint(1, 8)):
        t.append("N %d %s" % (now, " ".join("%d:%d:%d" % (p, r.choice([1, 2, 100, 100, 999]), r.choice([0, 0, 0, 1, 2])) for p in r.sample(range(1, 5), r.randint(0, 4)))))
        now += r.choice([1, 1, 5])
    return t


def walras(c):
    q = c.quick()
    exe = vlib.build("walras")
    ts = []
    for n, (ws, ss, lot, value, long0, rounds) in enumerate([("0, 150, 333", "0, 1, 2", 1, 100, 1, 2), ("200, 331", "1, 3", 10, 1000, 2, 2)]):
        hs = vlib.printed(c.design("Walras_MC", WMC % ("1, 2", ws, ss, lot, value, long0, rounds, "TRUE"), "emit%d" % n), "TEST")
        hs = [json.loads(x) for x in sorted({json.dumps(h, sort_keys=True) for h in hs})]      # one for all roundings
        c.extra["tests_from_tlc_w%d" % n] = len(hs)
        if q and len(hs) > 600:
            hs = c.rng.sample(hs, 600)
        ts += [wtlc(c.rng, h, value, lot) for h in hs]
    if not q:
        c.design("Walras_MC", WMC % ("1, 2, 3", "100, 250", "0, 1, 3", 1, 100, 2, 2, "FALSE"), "deep")
    c.conform(exe, ts, "WalrasTrace", TR, "wtlc")
    c.conform(exe, [told(c.rng) for _ in range(60 if q else 600)], "WalrasTrace", TR, "told")
    for mode in ("full", "short", "sparse", "coupled", "curved", "wild"):
        c.conform(exe, [wrand(c.rng, mode) for _ in range(120 if q else 1500)], "WalrasTrace", TR, mode)
    c.conform(exe, [wsim(c.rng) for _ in range(120 if q else 1500)], "WalrasTrace", TR, "wsim")


CHECKS = {"C26": run, "C27": walras}
INFO = {"C26": ("TLA+ specification Impact checked with TLC; replay of TLC-enumerated order rounds in the C++ market, directly and in simulations, and trace validation",
                "Design: all rounds of orders of two participants over traded and untraded instruments; binding: net volumes given to the impact function, returned impacts, quotes sent, waiting and clearing of every act, and quotes received in running simulations. Prices are not updated by the code (missing feature) and that is not judged."),
        "C27": ("TLA+ specification Walras checked with TLC; replay of TLC-enumerated rounds of demand functions in the C++ price setter and its solvers, directly and in simulations, and trace validation",
                "Design: rounds of affine demands of 2-3 participants with every balanced rounding: units and cash conserved, positions one-sided, circuit breaker. Binding: new quotes against exact rational clearing prices, residual of coupled and curved demands, rounding, settlement in units, short positions and cash, netting, the quoting protocol, and inventories and known prices of shareholders in running simulations. Adept is replaced by a small tape with the same interface; USD prices only.")}
