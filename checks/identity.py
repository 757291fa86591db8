"""C17: identifiers against specs/Identity.tla."""
import vlib
MC = """SPECIFICATION MCSpec
CONSTANTS Props = {"C17"} MaxOps = %d Apis = %s Emit = %s
VIEW view
INVARIANTS TotalOrder Transitive Distinct Tree
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Props = {"C17"}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'


def dig(r):
    return r.choice([0, 1, 2, 9, 10, 255, 2**22 - 1, 2**22, 2**31, 2**32 - 1, 2**32, 2**44, 2**63 - 1, 2**63, 2**64 - 1, r.randrange(2**64)])


def ds(r, f, n=None):
    d = [str(f(r)) for _ in range(r.randint(0, 5) if n is None else n)]
    return ".".join(d) or "-"


def rand(r, big):
    roots = ["-"]
    if r.random() < .4:
        roots = [str(x) + "." + ds(r, lambda r: r.randint(0, 9), r.randint(1, 3)) for x in r.sample(range(1000, 2000), r.randint(1, 3))]
    t = ["T " + " ".join(roots)]
    n = len(roots) + 1
    for _ in range(r.randint(1, 60 if big else 15)):
        t.append("C %d %s" % (r.choice([0, n - 1, r.randrange(n), r.randrange(n)]), r.choice("wvamiepa")))
        n += 1
        if r.random() < .15:
            t.append("R %d" % r.randrange(n))
    if not big:
        t.append("A")
    for _ in range(12):
        a = ds(r, dig)
        z = r.random()
        if z < .3:
            b = a
        elif z < .7 and a != "-":
            p = a.split(".")
            k = r.randrange(len(p))
            b = ".".join(p[:k] + r.choice([[], [str(dig(r))], [str(dig(r))] + p[k + 1:], [str((int(p[k]) + r.choice([1, -1])) % 2**64)] + p[k + 1:]])) or "-"
        else:
            b = ds(r, dig)
        t.append("X %s %s" % (a, b))
        s = ds(r, lambda r: r.choice([0, 1, 9, 10, 99, 100, 12345, 2**31 - 1]), r.randint(0, 5))
        t.append("S %s %d" % (s, r.choice([0, 1, 2, 3, 5, 10, 20])))
    return t


def run(c):
    q = c.quick()
    exe = vlib.build("identity")
    hs = vlib.printed(c.design("Identity_MC", MC % (3, '{"w","v","a","m","i","e","p"}', "TRUE"), "emit"), "TEST")
    hs += vlib.printed(c.design("Identity_MC", MC % (5, '{"e","p"}', "TRUE"), "emit2"), "TEST")
    if not q:
        c.design("Identity_MC", MC % (7, '{"e"}', "FALSE"), "deep")
    m = 1200 if q else 6000
    if len(hs) > m:
        hs = c.rng.sample(hs, m)
    # api w and v always create below the world
    c.conform(exe, [["T -"] + ["C %d %s" % (k, a) for k, a in h] + ["A"] for h in hs], "IdentityTrace", TR, "tlc")
    c.conform(exe, [rand(c.rng, i % 5 == 0) for i in range(120 if q else 2500)], "IdentityTrace", TR, "rand")


CHECKS = {"C17": run}
INFO = {"C17": ("TLA+ specification Identity checked with TLC; replay of TLC-enumerated creation histories and trace validation of the C++ identifiers",
                "Design: all creation trees of up to 5-7 entities, total order, rendering; binding: creation through all seven interfaces, all pairs compared, "
                "64-bit digits compared as limbs, storing and loading entities.")}
