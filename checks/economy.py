"""C21: dividends."""
import vlib
DMC = """SPECIFICATION MCSpec
CONSTANTS Holders = {%s} End = %d Pols = %d Changes = %s Emit = %s
INVARIANTS OnceEach Announced OnePerDate Billed
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def terms(r):
    return " ".join("%d:%d:%d" % (k, r.choice([0, 1, 100, 10 ** 9]), r.choice([0, 1, 7])) for k in r.sample(range(5), r.randint(0, 3)))


def dtlc(r, scen):
    plan, reg, hold, wake = scen
    base, k = r.choice([(0, 1), (0, 1), (3, 1), (10, 7), (0, 100)])
    at = lambda t: base + k * t
    n = len(hold)
    t = ["T sim %d %d %d" % (base, at(6), r.choice([0, 0, k, 2 * k])), "C"] + ["H"] * n
    for p in plan:
        t.append("P 1 %d %d %d %s" % (at(p["ann"]), at(p["ex"]), at(p["pay"]), terms(r)))
    if reg:
        t.append("R 1 " + " ".join(str(h + 1) for h in reg))
    for h in range(n):
        if hold[h]:
            t.append("S %d -1 1 1 %d" % (h + 2, hold[h][0]))
        for _ in range(r.choice([0, 0, 1, 2])):
            t.append("S %d %d 1 %d %d" % (h + 2, r.randint(0, 2), r.choice([1, 1, 2]), r.choice([0, 0, 5, 6])))
        w = sorted(r.sample(range(1, 6), r.randint(0, 3)))
        t.append("W %d %s" % (h + 2, " ".join(str(at(x)) for x in ([wake[h]] if wake[h] else []) + w)))
    return t


def drand(r):
    start, span = r.choice([0, 0, 1, 100]), r.choice([6, 12, 40, 400])
    nc, nh = r.randint(1, 3), r.randint(0, 4)
    n = nc + nh
    t = ["T sim %d %d %d" % (start, start + span, r.choice([0, 0, span // 3, span // 6 + 1]))] + ["C"] * nc + ["H"] * nh
    for c in range(1, nc + 1):
        d = start + (0 if r.random() < .3 else r.randint(0, span // 2))
        for _ in range(r.randint(0, 4)):
            ex = d + r.choice([0, 0, 1, 2, r.randint(0, span)])
            pay = ex + r.choice([0, 0, 1, 3])
            if r.random() < .1:
                pay = d
            t.append("P %d %d %d %d %s" % (c, d, ex, pay, terms(r)))
            d = max(d + 1, ex + 1, pay + r.choice([0, 1, 3]))
        if r.random() < .9:
            t.append("R %d %s" % (c, " ".join(str(x) for x in r.sample(range(1, n + 1), r.randint(0, n)))))
    for h in range(1, n + 1):
        if r.random() < .3:        # everything is bought late, and several records fall due together
            for c in range(1, nc + 1):
                t.append("S %d %d %d 1 %d" % (h, r.choice([0, 1, 2]), c, r.choice([1, 5])))
            t.append("W %d %s" % (h, " ".join(str(start + x) for x in sorted(r.sample(range(1, span), min(5, span - 1))))))
            continue
        for c in r.sample(range(1, nc + 1), r.randint(0, nc)):
            for k in r.sample(range(4), r.randint(1, 3)):
                t.append("S %d -1 %d %d %d" % (h, c, k, r.choice([1, 7, 10 ** 9])))
        for _ in range(r.choice([0, 0, 2, 4])):
            t.append("S %d %d %d %d %d" % (h, r.randint(0, 6), r.randint(1, nc), r.randint(0, 3), r.choice([0, 0, 3, 11])))
        t.append("W %d %s" % (h, " ".join(str(start + x) for x in sorted(r.sample(range(1, span), r.randint(0, min(5, span - 1)))))))
    return t


def dshare(r, n):
    t = ["T dps"]
    for _ in range(n):
        big = r.random() < .3
        cl = []
        for k in r.sample(range(9), r.randint(0, 4)):
            m = r.choice([0, 1, 2, 3, 7, 99, 100, 101, r.randint(0, 1000)]) if not big else r.choice([1, 10 ** 9 + 7, 2 ** 40 + 3, 2 ** 53 + 1, r.randint(0, 2 ** 60)])
            cl.append("%d:%d:%d" % (k, 0 if r.random() < .2 else 1, m))
        p = r.choice([0, 1, -1, 2, 99, 100, 101, r.randint(-500, 5000), r.randint(0, 10 ** 6)] + ([2 ** 53 + 1, 2 ** 62 + 12345, 2 ** 63 - 1, r.randint(0, 2 ** 63 - 1), -2 ** 60] if big else []))
        t.append("D %d %s %s" % (p, r.choice(["USD", "USD", "EUR", "JPY"]), " ".join(cl)))
    return t


def dividends(c):
    q = c.quick()
    exe = vlib.build("dividend")
    hs = vlib.printed(c.design("Dividend_MC", DMC % ("1,2", 2, 1, "FALSE", "TRUE"), "emit"), "TEST")
    hs += vlib.printed(c.design("Dividend_MC", DMC % ("1", 3 if q else 4, 2, "TRUE", "TRUE"), "two"), "TEST")
    seen, uniq = set(), []
    for h in hs:
        if str(h) not in seen:
            seen.add(str(h))
            uniq.append(h)
    c.extra["tests_from_tlc"] = len(uniq)
    if not q:
        c.design("Dividend_MC", DMC % ("1,2", 3, 1, "TRUE", "FALSE"), "deep", timeout=400)
    m = 1500 if q else 20000
    if len(uniq) > m:
        uniq = c.rng.sample(uniq, m)
    c.conform(exe, [dtlc(c.rng, h) for h in uniq], "DividendTrace", TR, "tlc")
    c.conform(exe, [drand(c.rng) for _ in range(1200 if q else 15000)], "DividendTrace", TR, "rand")
    c.conform(exe, [dshare(c.rng, 40) for _ in range(60 if q else 600)], "DividendTrace", TR, "shares")
    c.assumptions += ["announcement and ex-dividend dates of a company increase from policy to policy", "share classes are told apart by their rank",
                      "an entry in a shareholder's books means that it holds shares"]


# ------------------------------------------------------------------------------------------------ C22
AMC = """SPECIFICATION MCSpec
CONSTANTS Times = {%s} VMax = %d MaxOps = %d Emit = %s
VIEW view
INVARIANTS Adjacent Split Everything Determined Opposite
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
CURS = ["USD100", "EUR100", "JPY1", "USD1000", "GBP100", "XAU1"]
I = 2 ** 63 - 1


def num(r, lo, hi):
    return min(hi, max(lo, r.choice([0, 1, 2, 3, 7, 10, 99, 100, 101, 1000, 2 ** 31, 2 ** 32 + 1, 2 ** 40]) * r.choice([1, 1, -1]) + r.randint(-2, 2)))


def asks(r, home, horizon):
    z = r.random()
    if z < .35:
        lo = r.randint(0, horizon)
        return ["S %d %d" % (lo, r.choice([lo, lo + 1, horizon, r.randint(lo, horizon + 1)]))]
    if z < .55:
        return ["V %s %s %d" % (r.choice(["cash", "money"]), r.choice([home] + CURS), abs(num(r, -I, I)))]
    if z < .75:
        return ["V stock %d %d" % (r.randint(1, 3), abs(num(r, -I, I)))]
    if z < .92:
        return ["V short %d %d %d" % (r.randint(1, 3), r.choice([0, 1, 2, 3, 100]), r.choice([0, 1, 2, 7, 1000, 10 ** 6]))]
    return ["V loan %d" % abs(num(r, -I, I))]


def ledger(r):
    home = r.choice(CURS)
    h = r.choice([3, 5, 10, 200])
    small = r.random() < .5
    t = ["T " + home]
    for _ in range(r.randint(5, 40)):
        z = r.random()
        if z < .3:
            t.append("F %d %d" % (r.randint(0, h), r.randint(-3, 3) if small else num(r, -2 ** 50, 2 ** 50)))
        elif z < .42:
            a = 60 if small else 10 ** 6
            t.append("R %s %d %d" % (r.choice(CURS), r.choice([1, 2, 3, 109, r.randint(1, a)]), r.choice([1, 2, 3, 7, 100, r.randint(1, a)])))
        elif z < .45:
            t.append("r " + r.choice(CURS))
        elif z < .58:
            t.append("Q %d %d %s %d" % (r.randint(1, 3), r.randint(-9, 9) if small else num(r, -2 ** 33, 2 ** 33), r.choice([home] + CURS), r.choice([1, 1, 2, 3, 10, 100, 4000000000])))
        elif z < .61:
            t.append("q %d" % r.randint(1, 3))
        else:
            t += asks(r, home, h)
    for _ in range(6):
        t += asks(r, home, h)
    return t


def atlc(r, hist):
    home, other = r.choice([("USD100", "EUR100"), ("EUR100", "USD1000"), ("JPY1", "USD100"), ("USD100", "JPY1"), ("USD1000", "USD100")])
    k, m = r.choice([1, 1, 5]), r.choice([1, 1, 7, 101])
    t = ["T " + home]
    for op in hist:
        x = op[0]
        if x == "F":
            t.append("F %d %d" % (op[1] * k, op[2] * m))
        elif x == "R":
            t.append("R %s %d %d" % (other, op[1], op[2]))
        elif x == "r":
            t.append("r " + other)
        elif x == "Q":
            t.append("Q 1 %d %s %d" % (op[1] * m, home if op[2] == "USD" else other, op[3]))
        else:
            t.append("q 1")
        t += ["V stock 1 %d" % r.choice([0, 1, 2, 3, 10]), "V short 1 %d %d" % (r.randint(0, 3), r.randint(0, 3))]
    t += ["V cash %s %d" % (other, r.randint(0, 9)), "V money %s %d" % (home, r.randint(0, 9)), "V loan %d" % r.randint(0, 3)]
    if any(op[0] == "F" for op in hist):
        t += ["S %d %d" % (a * k, b * k) for a in range(4) for b in range(a, 4)]
    return t


def accounts(c):
    q = c.quick()
    exe = vlib.build("accounting")
    hs = vlib.printed(c.design("Accounting_MC", AMC % ("0, 1", 1, 2 if q else 3, "TRUE"), "emit"), "TEST")
    c.design("Accounting_MC", AMC % (("0, 1, 2", 2, 3, "FALSE") if q else ("0, 1, 2", 2, 4, "FALSE")), "deep")
    c.extra["tests_from_tlc"] = len(hs)
    if len(hs) > (800 if q else 8000):
        hs = c.rng.sample(hs, 800 if q else 8000)
    c.conform(exe, [atlc(c.rng, h) for h in hs], "AccountingTrace", TR, "tlc")
    c.conform(exe, [ledger(c.rng) for _ in range(300 if q else 6000)], "AccountingTrace", TR, "rand")


CHECKS = {"C21": dividends, "C22": accounts}
_T = "TLA+ specification %s checked with TLC; replay of TLC-enumerated scenarios in the C++ code and trace validation of every activation"
INFO = {"C21": (_T % "Dividend",
                "Design: every policy is announced once to every registered shareholder and billed once, for all schedules, registers, holdings and activation times up to the "
                "bound; binding: companies and shareholders run inside the simulation, every activation's messages, holdings and answers are compared with the specification; "
                "amounts per share are checked with exact integer arithmetic."),
        "C22": ("TLA+ specification Accounting (exact integers) checked with TLC; replay of TLC-enumerated and random books in the C++ code and trace validation of every statement and valuation",
                "Design: adjacent periods add up, income and expenses make up revenue and values are determined, for all small books; binding: every statement, valuation and refusal of the C++ code is compared with the specification.")}
