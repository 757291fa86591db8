"""C01-C07: both order books against specs/OrderBook.tla."""
import vlib

TRACE_CFG = """SPECIFICATION TraceSpec
CONSTANT Props = {%s}
POSTCONDITION TraceAccepted
CHECK_DEADLOCK FALSE
"""
MC_CFG = """SPECIFICATION MCSpec
CONSTANTS
  Props = {"C01","C02","C03","C04","C05","C06","C07"}
  PriceSet = {%s}
  QtySet = {%s}
  Lifes = {%s}
  MaxOps = %d
  MaxOrders = %d
  Emit = %s
  WithInvalid = %s
VIEW view
INVARIANTS NotCrossed PositiveQuantities IssuedOnce Conservation FokAllOrNothing IocNeverRests
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""


def head(kind, lo=99, hi=104, lot=100, cap=64, minor=100):
    return "T %s %d %d %d %d %d" % (kind, lo, hi, lot, cap, minor)


def from_tlc(hists, kind, lo, lot=100, cap=64, unit=1, hi=None):
    """operation scripts printed by TLC -> harness scripts; spec price p becomes lo+unit*(p-1)"""
    out = []
    for h in hists:
        t = [head(kind, lo, hi if hi is not None else lo + unit * 2, lot, cap)]
        for op in h:
            if op[0] == 0:
                p = lo + unit * (op[2] - 1)
                t.append("I %d %d %d %d" % (op[1], p, op[3], op[4]))
            else:
                t.append("C %d" % op[1])
        out.append(t)
    return out


def random_tests(rng, kind, n, length, style):
    out = []
    for _ in range(n):
        lot = rng.choice([1, 10, 100, 100, 100, 150, 200, 500, 1000]) if kind == "s" else rng.choice([1, 100])
        minor = rng.choice([1, 100, 100, 100, 1000])
        lo = rng.choice([0, 1, 50, 99, 1000, 12345])
        width = rng.choice([1, 2, 3, 5, 9, 20])
        hi = lo + width
        cap = rng.choice([128, 64, 300]) if style != "reuse" else 12
        t = [head(kind, lo, hi, lot, cap, minor)]
        k, live_guess = 0, []
        mid = rng.randint(lo, hi)
        ln = rng.randint(3, length)
        for _ in range(ln):
            x = rng.random()
            pc = {"cancel": 0.4, "reuse": 0.45, "life": 0.1, "deep": 0.1, "mix": 0.25, "edge": 0.25, "invalid": 0.15}[style]
            if k and x < pc:
                if style == "reuse" and rng.random() < 0.15:
                    t.append("X %d" % rng.randint(0, 40))
                else:
                    # prefer recent orders, sometimes stale ones twice
                    t.append("C %d" % (rng.randint(max(0, k - 6), k - 1) if rng.random() < 0.7 else rng.randint(0, k - 1)))
                continue
            side = rng.randint(0, 1)
            if style == "edge":
                p = rng.choice([lo, hi, lo, hi, rng.randint(lo, hi)])
            elif style == "deep":
                # build depth away from the middle, then sweep
                if rng.random() < 0.75:
                    p = rng.randint(lo, max(lo, mid - 1)) if side == 0 else rng.randint(min(hi, mid + 1), hi)
                else:
                    p = hi if side == 0 else lo
            else:
                p = rng.randint(lo, hi)
            if rng.random() < 0.05:
                mid = rng.randint(lo, hi)
            q = rng.choice([1, 1, 2, 3, 5, 10, 100]) if style != "deep" or rng.random() < 0.8 else rng.randint(5, 60)
            life = rng.choice([0, 0, 1, 2]) if style == "life" else rng.choice([0] * 8 + [1, 2])
            if style == "invalid" and rng.random() < 0.4 and kind == "s":
                z = rng.randint(0, 3)
                if z == 0:
                    p = rng.choice([lo - 1, hi + 1, lo - 50, hi + 1000])
                elif z == 1:
                    q = 0
                else:
                    t.append("I %d %d %d %d %d" % (side, p, q, life, rng.choice([1, 50, lot + 1, lot * 2])))
                    k += 1
                    continue
            elif style == "invalid" and rng.random() < 0.2:
                q = 0
            if style == "reuse":
                # stay well within the capacity: the number of live orders is bounded by the script
                if rng.random() < 0.5 and k % 8 == 7:
                    p, life, q = (hi if side == 0 else lo), 2, 1000
            t.append("I %d %d %d %d" % (side, p, q, life))
            k += 1
        if style == "reuse":
            t = bound_live(t, 10)
        out.append(t)
    return out


def bound_live(t, limit):
    """keeps the number of insertions between full sweeps below the capacity by cancelling everything now and then"""
    out, k, since = [t[0]], 0, []
    for line in t[1:]:
        if line[0] == "I":
            if len(since) >= limit:
                for j in since:
                    out.append("C %d" % j)
                since = []
            since.append(k)
            k += 1
        out.append(line)
    return out


def sweep_tests(rng, quick):
    """C07: every tick of many interval/lot configurations."""
    out = []
    confs = []
    n = 60 if quick else 600
    for _ in range(n):
        lot = rng.choice([1, 1, 2, 7, 10, 50, 99, 100, 100, 101, 150, 200, 300, 500, 1000, 10000])
        lo = rng.choice([0, 1, 2, 7, 10, 99, 100, 101, 999, 1000, 4999, 10001, 99999])
        w = rng.choice([1, 2, 3, 4, 7, 10, 33, 60, 99, 100])
        confs.append((lo, lo + w, lot, rng.choice([1, 100, 100, 1000])))
    confs += [(lo, hi, lot, 100) for (lo, hi, lot) in ((1, 100, 100), (1, 1000, 100), (100, 101, 100), (1, 2, 100), (1, 60, 10000),
                                                       (1, 1000, 1000), (1, 2000, 1), (100, 101, 1), (7, 340, 3))]
    for (lo, hi, lot, minor) in confs:
        t = [head("s", lo, hi, lot, 4096, minor)]
        ticks = list(range(lo, hi + 1))
        if len(ticks) > 120:
            ticks = ticks[:20] + sorted(rng.sample(ticks[20:-20], 80)) + ticks[-20:]
        k = 0
        for p in ticks:
            side = rng.randint(0, 1)
            t.append("I %d %d 1 0" % (side, p))
            k += 1
            if rng.random() < 0.4:
                t.append("I %d %d 1 %d" % (1 - side, p, rng.choice([0, 2, 1])))
                k += 1
            t.append("C %d" % (k - 1))
            t.append("C %d" % (k - 2 if k > 1 else 0))
        for bad in ("I 0 %d 1 0" % (lo - 1), "I 1 %d 1 0" % (hi + 1), "I 0 %d 0 0" % lo, "I 1 %d 5 0 %d" % (hi, lot + 1),
                    "I 0 %d 3 2" % (hi + 1), "I 1 %d 3 1" % (lo - 1)):
            t.append(bad)
        t += ["I 0 %d 1 0" % hi, "I 1 %d 2 0" % lo, "I 0 %d 2 0" % hi]
        out.append(t)
    return out


STYLES = {
    "C01": ["mix", "deep", "life", "cancel", "reuse", "invalid"],
    "C02": ["deep", "mix", "cancel", "reuse"],
    "C03": ["mix", "edge", "cancel", "deep"],
    "C04": ["cancel", "edge", "mix", "deep", "life"],
    "C05": ["reuse", "cancel", "mix"],
    "C06": ["life", "deep", "edge"],
    "C07": ["edge", "invalid", "mix"],
}


def check(c):
    pid = c.pid
    exe = vlib.build("book")
    q = c.quick()
    lifes = "0,1,2"
    # exhaustive design check, and one replayed test per explored (state, operation)
    ops, orders = (3, 3) if q else (4, 4)
    prices = "1,2,3" if q else "1,2"
    out = c.design("OrderBook_MC", MC_CFG % (prices, "1,2", lifes, ops, orders, "TRUE", "FALSE"), "replay", workers=4)
    hists = vlib.printed(out, "TEST")
    # deeper design-only exploration
    if q:
        c.design("OrderBook_MC", MC_CFG % ("1,2", "1,2", "0,1,2", 4, 3, "FALSE", "TRUE"), "design")
    else:
        c.design("OrderBook_MC", MC_CFG % ("1,2,3", "1,3", "0,1,2", 5, 4, "FALSE", "TRUE"), "design", timeout=800)
    c.extra["tests_from_tlc"] = len(hists)
    tcfg = TRACE_CFG % ('"%s"' % pid)
    cap = 6000 if q else 60000
    if len(hists) > cap:
        # keep all short ones, sample the long ones
        hists.sort(key=len)
        long = [h for h in hists if len(h) == len(hists[-1])]
        short = [h for h in hists if len(h) < len(hists[-1])]
        hists = short[:cap] + c.rng.sample(long, max(0, min(len(long), cap - len(short))))
    for kind in (["s"] if pid == "C07" else ["s", "t"]):
        c.conform(exe, from_tlc(hists, kind, 99 if kind == "s" else 5), "OrderBookTrace", tcfg, "tlc-" + kind)
        n = (120 if q else 1500)
        tests = []
        for st in STYLES[pid]:
            tests += random_tests(c.rng, kind, n, 40 if q else 120, st)
        c.conform(exe, tests, "OrderBookTrace", tcfg, "rand-" + kind)
    if pid == "C07":
        c.conform(exe, sweep_tests(c.rng, q), "OrderBookTrace", tcfg, "sweep")
    c.assumptions += ["all resting orders fit the configured capacity",
                      "the harness reads identifiers, prices and quantities from the public execution reports"]


CHECKS = {p: check for p in ("C01", "C02", "C03", "C04", "C05", "C06", "C07")}

_T = "TLA+ specification OrderBook checked with TLC; TLC-generated and random histories replayed in both C++ books; recorded reports validated as traces"
INFO = {p: (_T, "The design (all report sequences the specification allows) is checked exhaustively for up to 4 operations over 2-3 prices, "
            "2 quantities and all lifetimes; every explored (state, operation) pair up to the replay bound is executed on the real book and each "
            "recorded history must be a behaviour of the specification with the guards of this property. Histories are finite; price intervals have at most 2000 ticks.")
        for p in CHECKS}
