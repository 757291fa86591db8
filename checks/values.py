"""C20: quantities, prices, quotes and exchange rates against specs/Values.tla."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS QMax = %d MaxOps = %d Emit = %s
VIEW view
INVARIANTS NonNegative SameKind Trichotomy Guarded Parts Quotient Inverse
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Props = {"C20"}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
U, I = 2**64 - 1, 2**63 - 1
CURS = ["USD100", "EUR100", "USD1000", "JPY1", "USD1", "XXX100"]


def near(r, xs, lo, hi):
    return min(hi, max(lo, r.choice(xs) + r.choice([0, 0, 1, -1, 2, r.randint(-9, 9)])))


def qv(r):
    return r.randrange(U + 1) if r.random() < .15 else near(r, [0, 1, 3, 7, 10, 99, 2**31, 2**32, 2**53, 2**63, U], 0, U)


def pv(r):
    return r.randint(-I, I) if r.random() < .15 else near(r, [0, 0, 1, -1, 5, -5, 100, -100, 2**31, -2**32, 2**40, 2**53, -2**53, 2**61, I, -I], -I, I)


def rand(r):
    nq, np = r.randint(2, 3), r.randint(2, 5)
    cs = r.sample(CURS, r.choice([1, 2, 2, 3]))
    lots = r.choice([[0], [0], [1], [1, 100], [10, 0, 10], [1, 4000000000], [1, 10]])
    base = [(pv(r), r.choice(cs), r.choice(lots)) for _ in range(np)]
    for k in range(1, np):
        if r.random() < .3:
            j = r.randrange(k)
            base[k] = (base[j][0], base[k][1], r.choice([base[j][2], base[k][2]]))
    t = ["T " + " ".join(str(qv(r)) for _ in range(nq)) + " | " + " ".join("%d %s %d" % b for b in base)]
    for _ in range(r.randint(5, 40)):
        i, j, a, b = r.randint(1, nq), r.randint(1, nq), r.randint(1, np), r.randint(1, np)
        z = r.random()
        if z < .25:
            f = r.choice("arlnarln")
            t.append("q %s %s %d %d" % (r.choice(["add", "sub", "mul", "add", "sub"]), f, i, qv(r) if f in "ln" else j))
        elif z < .35:
            t.append("q %s %s %d" % (r.choice(["inc", "dec", "dec"]), r.choice("ps"), i))
        elif z < .42:
            t.append("c %d %d" % (i, j))
        elif z < .52:
            t.append("%s %d %d" % (r.choice("dD"), i, r.choice([1, 2, 3, 4, 5, 7, 8, 9, 11, 12])))
        elif z < .55:
            t.append("d %d %d" % (i, r.randint(1, 40)))
        elif z < .6:
            t.append("/ %d %d" % (i, r.choice([1, 2, 3, 7, 10, 1000])))
        elif z < .75:
            t.append("p %s %s %d %d" % (r.choice(["add", "sub", "mul", "quot"]), r.choice("ar"), a, b))
        elif z < .78:
            t.append("n %d" % a)
        elif z < .84:
            t.append("s %d %d %s" % (a, near(r, [0, 1, 2, 100, 2**31], 0, U), r.choice("lriL")))
        elif z < .9:
            t.append("x %d %d %d" % (a, r.choice([1, 2, 3, 7, 99, 1000, r.randint(1, 10**6)]), r.choice([1, 2, 3, 7, 10, 100, r.randint(1, 10**6)])))
        else:
            t.append("k %d %d" % (a, b))
    for a in range(1, np + 1):
        t.append("f %d" % a)
        t.append("a %d %d %d %s" % (near(r, [0, 1, 100, -100, 2**20, -2**30, r.randint(-2**40, 2**40)], -2**41, 2**41), r.choice([0, 1, 2, 7, 10, 20, 40]), a, r.choice("sc")))
        for b in range(1, np + 1):
            t.append("k %d %d" % (a, b))
    return t


def small(r, h):
    """A TLC history on small registers, moved to another part of the number range."""
    o = r.choice([0, 0, 2**32 - 2, 2**63 - 2, U - 4])
    p = r.choice([0, 0, 2**31 - 1, -2**32, 2**53, I - 4, 4 - I])
    if any(x[1] == "mul" for x in h["h"]):
        o, p = r.choice([0, 2**31 - 2]), r.choice([0, 2**30])
    s = h["s"]
    t = ["T " + " ".join(str(x + o) for x in s["q"]) + " | " + " ".join("%d %s %d" % (x[0] + p, x[1] + "100", x[2]) for x in s["p"])]
    for kind, op, i, j in h["h"]:
        if op in ("inc", "dec"):
            t.append("q %s %s %d" % (op, r.choice("ps"), i))
        elif kind == "q":
            t.append("q %s a %d %d" % (op, i, j))
        else:
            t.append("p %s a %d %d" % (op, i, j))
        t += ["c 1 2", "k 1 2", "k 2 1", "d 1 %d" % r.randint(1, 4)]
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("values")
    hs = vlib.printed(c.design("Values_MC", MC % (1, 2, "TRUE"), "emit"), "TEST")
    c.extra["tests_from_tlc"] = len(hs)
    c.design("Values_MC", MC % ((2, 1, "FALSE") if q else (3, 2, "FALSE")), "deep")
    m = 1200 if q else 15000
    if len(hs) > m:
        hs = c.rng.sample(hs, m)
    c.conform(exe, [small(c.rng, h) for h in hs], "ValuesTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(300 if q else 6000)], "ValuesTrace", TR, "rand")


# ------------------------------------------------------------------------------------------------ C25
CMC = """SPECIFICATION MCSpec
CONSTANTS Symbols = {%s} MaxOps = %d Emit = %s
VIEW view
INVARIANTS Agree Unique UniqueLei RefusesWrong
PROPERTIES Noticed NoticedLei
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
CTR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
DIG, UP = "0123456789", "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
LOW = UP.lower()
WAYS = {"isin": "abcdef", "cusip": "abcs", "sedol": "as", "lei": "as"}


def body(r, k):
    w = r.choice([DIG, DIG + UP, DIG + UP, UP, DIG + UP + LOW])
    if k == "lei":
        w = r.choice([DIG, DIG + UP, UP])
        return "".join(r.choice(DIG) for _ in range(4)) + "00" + "".join(r.choice(w) for _ in range(12))
    if k == "isin":
        return "".join(r.choice(UP) for _ in range(2)) + "".join(r.choice(w) for _ in range(9))
    if k == "cusip":
        w = r.choice([w, w + "*@#"])
    return "".join(r.choice(w) for _ in range({"cusip": 8, "sedol": 6}[k]))


def entry(r, k, s):
    way = r.choice(WAYS[k])
    n = {"isin": 11, "cusip": 8, "sedol": 6, "lei": 18}[k]
    if k == "cusip" and way == "c":      # all check digits: one of them is right
        return ["E %s %s %s%d" % (k, way, s, d) for d in range(10)] + (["E %s %s %s%s" % (k, way, s, r.choice("Xa:/"))] if r.random() < .3 else [])
    if k == "lei" and way == "s":
        v = lambda c: int(c, 36)
        good = 98 - int("".join(str(v(c)) for c in s) + "00") % 97
        out = ["E lei s " + s, "E lei s %s%02d" % (s, good)]
        if r.random() < .3:
            out.append("E lei s %s%02d" % (s, (good + r.choice([1, 10, 97, 3, 90])) % 100))
        return out
    if way in "csde" and r.random() < .5:      # a check digit that is not looked at
        return ["E %s %s %s%s" % (k, way, s, r.choice(DIG))]
    if k == "isin" and way == "f":             # the last symbol is the check digit of the CUSIP
        return ["F " + s]
    return ["E %s %s %s" % (k, way, s)]


def cusip_digit(s):
    v = lambda c: 36 + "*@#".index(c) if c in "*@#" else int(c, 36)
    t = [v(c) * (1 + i % 2) for i, c in enumerate(s)]
    return str(-sum(x // 10 + x % 10 for x in t) % 10)


def full(t):
    # an ISIN made from a CUSIP contains the check digit of the CUSIP
    return ["E isin f " + x[2:12] + cusip_digit(x[4:12]) if x.startswith("F ") else x for x in t]


def codes(r):
    t = ["T"]
    for _ in range(r.randint(10, 40)):
        k = r.choice(sorted(WAYS))
        t += entry(r, k, body(r, k))
    for _ in range(r.randint(0, 3)):
        n = r.choice([0, 1, 7, 8, 11, 12, 13]) 
        x = r.choice(["nsin", "isin", "country"])
        bad = {"nsin": [1, 5, 8, 11, 12, 20], "isin": [1, 2, 9, 10, 13, 14], "country": [1, 3, 4]}[x]
        t.append("L %s %s" % (x, "".join(r.choice(UP) for _ in range(r.choice(bad)))))
    if r.random() < .3:
        t.append("L country " + r.choice(["us", "U1", "1U", "Us", "[]", "@A", "Z["]))
    for _ in range(r.randint(0, 2)):
        t.append("C %d %s" % (r.choice([0, 1, 35, 36, 2**64 - 1, r.randrange(2**64)]), "".join(r.choice(DIG) for _ in range(4))))
    return full(t)


def every(r):
    """Every symbol at every position of every kind of code."""
    ts = []
    for k in sorted(WAYS):
        n = {"isin": 11, "cusip": 8, "sedol": 6, "lei": 18}[k]
        for i in range(n):
            if k == "lei" and i in (4, 5):
                continue
            w = UP if k == "isin" and i < 2 else DIG if k == "lei" and i < 4 else DIG + UP + ("" if k == "lei" else LOW) + ("*@#" if k == "cusip" else "")
            t = ["T"]
            s = body(r, k)
            for c in w:
                t += entry(r, k, s[:i] + c + s[i + 1:])
            ts.append(full(t))
    return ts


def digits(c):
    q = c.quick()
    exe = vlib.build("digits")
    sym = ", ".join(str(ord(x)) for x in ("0159AZ" if q else DIG + "AKTZ"))
    deep = ", ".join(str(ord(x)) for x in "0159AZ")
    ev = vlib.printed(c.design("CheckDigits_MC", CMC % (sym, 1, "TRUE"), "emit"), "TEST")
    c.design("CheckDigits_MC", CMC % (deep, 2 if q else 3, "FALSE"), "deep")
    c.extra["tests_from_tlc"] = len(ev)
    ts = []
    for i in range(0, len(ev), 20):
        t = ["T"]
        for e in ev[i:i + 20]:
            s = "".join(map(chr, e["s"]))
            for _ in range(3):
                t += entry(c.rng, e["k"], s)
        ts.append(full(t))
    c.conform(exe, ts, "CheckDigitsTrace", CTR, "tlc")
    c.conform(exe, every(c.rng), "CheckDigitsTrace", CTR, "symbols")
    c.conform(exe, [codes(c.rng) for _ in range(150 if q else 4000)], "CheckDigitsTrace", CTR, "rand")


CHECKS = {"C20": run, "C25": digits}
INFO = {"C20": ("TLA+ specification Values (exact integers as digit sequences) checked with TLC; replay of TLC-enumerated operation sequences and trace validation of every operator of the C++ classes",
                "Design: all operation sequences on small registers obey ordering, inversion and division laws; binding: all operators over the whole 64-bit range as far as results are representable, currencies and lot sizes mixed."),
        "C25": ("TLA+ specification CheckDigits (the four standards, stated twice) checked with TLC; codes enumerated by TLC, every symbol at every position and random codes entered through every constructor, accepted or refused as the specification says",
                "Design: both statements of each standard agree and a wrong digit is noticed, for all codes within a few substitutions of a base code; binding: every symbol at every position plus random codes, through every constructor.")}
