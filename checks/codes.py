"""C32: codes of currencies, countries and markets, their tables, money and rates."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Alphabet = {%s} MaxLen = %d Most = %d Emit = %s
INVARIANTS %s
%s
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
DENS = ["1", "10", "100", "1000", "2", "99", "10000", "18446744073709551615"[:19]]


def hx(cs):
    return "x" + "".join("%02x" % c for c in cs)


def code(r, n=None):
    n = n or r.choice([2, 3, 3, 3, 4, 4])
    a = list(range(65, 91)) + (list(range(48, 58)) if n == 4 else [])
    if r.random() < .5:
        a = r.sample(a, 2)
    return [r.choice(a) for _ in range(n)]


def text(r):
    if r.random() < .5:
        return code(r)
    t = code(r)
    if r.random() < .7:
        t[r.randrange(len(t))] = r.choice([64, 91, 47, 58, 96, 97, 122, 123, 32, 0 or 1, 127, 128, 200, 255, 48, 57])
    if r.random() < .4:
        t = (t + code(r))[:r.choice([0, 1, 2, 3, 4, 5, 6])]
    return t


def rand(r):
    t = ["T"]
    for _ in range(r.randint(5, 30)):
        z = r.random()
        if z < .4:
            t.append("C %s %s %s" % (hx(text(r)), r.choice(DENS + ["0"]), r.choice(["0", "1", "5", "100", "9999999999999999999"[:19], str(r.randint(1, 10 ** 12))])))
        elif z < .6:
            n = r.choice([3, 4])
            a, b = code(r, n), code(r, n)
            if r.random() < .6:
                b = list(a)
                if r.random() < .6:
                    b[r.randrange(n)] = code(r, n)[0]
            d = DENS if n == 3 else ["1"]
            t.append("B %s %s %s %s" % (hx(a), r.choice(d), hx(b), r.choice(d)))
        elif z < .7:
            t.append("U " + hx(code(r, r.choice([2, 3]))))
        elif z < .85:
            k, den = r.choice([0, 1, 2, 3, 7, 10]), r.choice([1, 10, 100, 1000, 10000, 7])
            m = r.choice([0, 1, 2, 7, 8, r.randint(0, 10 ** 5), r.randint(0, 10 ** 5)]) * r.choice([1, 1, -1])
            t.append("M %d %d %d" % (m, k, den))
        elif z < .95:
            k, p = r.choice([0, 1, 2, 3, 7, 10]), r.choice([1, 2, 64, 1024, 100, 10000, 3])
            m = r.choice([0, 1, 3, r.randint(0, 10 ** 4)]) * r.choice([1, -1])
            t.append("R %d %d %d" % (m, k, p))
        else:
            t.append("I %d %d %d" % (r.choice([1, 100, 30000, r.randint(1, 30000)]), r.choice([0, 1, 100, -5, r.randint(1, 30000)]), r.choice([1, 30, 365])))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("codes")
    ts = []
    for n, (al, ml) in enumerate([([64, 65, 90, 91, 48, 57, 47, 58, 97], 3 if q else 4), ([65, 90, 48, 64], 5)]):
        rs = vlib.printed(c.design("Codes_MC", MC % (", ".join(map(str, al)), ml, 0, "TRUE", "NeverClashes", "CONSTRAINT Unregistered\nACTION_CONSTRAINT EmitTests"), "emit%d" % n), "TEST")
        ts += rs
    seen = sorted(set(tuple(x) for x in ts))
    c.extra["tests_from_tlc"] = len(seen)
    c.design("Codes_MC", MC % ("65, 48, 90" if q else "65, 90", 3 if q else 4, 2 if q else 3, "FALSE", "NeverClashes TotalOrder", "CONSTRAINT Few"), "registry")
    tests = [["T"] + ["C %s %s 7" % (hx(x), d) for x in seen[i:i + 20] for d in (["100", "0"] if len(x) == 3 else ["100"])] for i in range(0, len(seen), 20)]
    # comparisons of codes that share letters
    cs = [x for x in seen if len(x) in (3, 4) and all(65 <= k <= 90 for k in x)]
    for x in cs:
        ys = [y for y in cs if len(y) == len(x)]
        d = [("1", "1"), ("1", "2"), ("2", "10"), ("10", "2")] if len(x) == 3 else [("1", "1")]
        tests.append(["T"] + ["B %s %s %s %s" % (hx(x), a, hx(y), b) for y in ys for a, b in d])
    tests.append(["T", "A"])
    tests += [["T"] + ["U %s" % hx([a, b]) for b in range(65, 91)] for a in range(65, 91)]
    us = [[a, b, k] for a in range(65, 91) for b in range(65, 91) for k in range(65, 91)]
    us = c.rng.sample(us, 1500) if q else us
    tests += [["T"] + ["U %s" % hx(u) for u in us[i:i + 60]] for i in range(0, len(us), 60)]
    c.conform(exe, tests, "CodesTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng) for _ in range(400 if q else 8000)], "CodesTrace", TR, "rand")


CHECKS = {"C32": run}
INFO = {"C32": ("TLA+ specification Codes with CodeTables (which texts are codes, their order and identity, the tables of currencies, countries and jurisdictions, money and rates) checked with TLC; codes, tables and conversions of the C++ code are read back by the specification",
                "Design: digests never clash for any two currency or country codes, comparison is a total order, the tables are consistent; binding: every text over boundary alphabets, every table entry, all two-letter and sampled three-letter codes, random conversions.")}
