"""C09: the matching engine; C10: the centralized exchange."""
import vlib
EMC = """SPECIFICATION MCSpec
CONSTANTS Props = {"C09"} Inst = {%s} PriceSet = {%s} QtySet = {%s} Lifes = {%s} MaxOps = %d Emit = %s
VIEW view
INVARIANTS Isolated OwnReports SameDomains
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nCONSTANT Props = {"%s"}\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
N = 9


def ehead(r, kind, lo, hi):
    return "T %s %d %d 100 400 %d" % (kind, lo, hi, N)


def etlc(r, h):
    kind = r.choice("std")
    lo = r.choice([1, 99, 5000])
    perm = r.sample(range(1, N + 1), 3)
    if r.random() < .5:
        perm = r.choice([[1, 7, 9], [7, 9, 1], [2, 8, 5], [1, 4, 7], [3, 6, 9]])
    t = [ehead(r, kind, lo, lo + 2)]
    for op in h:
        if op[0] == 0:
            t.append("I %d %d %d %d %d" % (perm[op[1] - 1], op[2], lo + op[3] - 1, op[4], op[5]))
        else:
            t.append("C %d %d" % (perm[op[1] - 1], op[2] - 1))
    return t


def erand(r, n):
    kind = r.choice("std")
    lo = r.choice([1, 99, 5000])
    hi = lo + r.choice([1, 3, 9])
    ts = r.sample(range(1, N + 1), r.choice([2, 3, 5, N]))
    t, k = [ehead(r, kind, lo, hi)], 0
    for _ in range(r.randint(5, n)):
        x = r.random()
        if k and x < .2:
            t.append("C %d %d" % (r.choice(ts), r.randint(max(0, k - 8), k - 1)))
        elif x < .22:
            t.append("C %d %d" % (r.randint(1, N), r.randint(0, 50)))
        elif x < .3:
            t.append("X %d" % r.choice(ts))
        elif x < .33 and kind == "s":
            t.append("I %d %d %d %d %d %d" % (r.choice(ts), r.randint(0, 1), r.choice([lo - 1, hi + 1, lo]), r.choice([0, 1]), r.randint(0, 2), r.choice([100, 100, 50])))
            k += 1
        else:
            t.append("I %d %d %d %d %d" % (r.choice(ts), r.randint(0, 1), r.randint(lo, hi), r.choice([1, 1, 2, 3, 10]), r.choice([0, 0, 0, 0, 1, 2])))
            k += 1
    return t


def engine(c):
    q = c.quick()
    exe = vlib.build("engine")
    hs = vlib.printed(c.design("Engine_MC", EMC % ("1,2", "1,2", "1,2", "0", 3, "TRUE"), "emit"), "TEST")
    c.extra["tests_from_tlc"] = len(hs)
    c.design("Engine_MC", EMC % (("1,2,3", "1,2", "1", "0,2", 3, "FALSE") if q else ("1,2,3", "1,2", "1,2", "0", 4, "FALSE")), "deep", timeout=500)
    m = 2500 if q else 12000
    if len(hs) > m:
        hs = [h for h in hs if len(h) < 3] + c.rng.sample([h for h in hs if len(h) == 3], m)
    c.conform(exe, [etlc(c.rng, h) for h in hs], "EngineTrace", TR % "C09", "tlc")
    c.conform(exe, [erand(c.rng, 60 if q else 150) for _ in range(250 if q else 3000)], "EngineTrace", TR % "C09", "rand")


XMC = """SPECIFICATION MCSpec
CONSTANTS Props = {"C10"} P = {%s} QtySet = {%s} PriceSet = {%s} Lifes = {%s} Kinds = {%s} MaxOps = %d Emit = %s
VIEW view
INVARIANTS OwnersKnow SubscribersKnow NobodyElse OncePerSession
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
ALL = ["order", "cancel", "snap", "stream", "unsub", "logon", "logout"]


def kinds(*ks):
    return ",".join('"%s"' % k for k in ks)


def xhead(r, kind, lo, hi, inst, traded, n):
    lat = [0] * n if r.random() < .5 else [r.choice([0, 1, 2, 5, 9]) for _ in range(n)]
    return "T %s %d %d 100 400 | %s | %s | %s" % (kind, lo, hi, " ".join(map(str, inst)), " ".join(map(str, traded)), " ".join(map(str, lat)))


def xtlc(r, h):
    kind, lo = r.choice("st"), r.choice([1, 99])
    pm = [0] + r.choice([[1, 2, 3], [7, 1, 9], [9, 7, 2], [4, 1, 7]])
    t = [xhead(r, kind, lo, lo + 2, pm[1:3], pm[1:], 2)]
    place, n, ids = {}, 0, 0
    late = r.random() < .3       # several requests in one activation
    reqs = []
    for k, op in enumerate(h, 1):
        if op[0] == "O":
            reqs.append("O %d %d %d %d %d %d %d" % (pm[op[1]], op[2], op[3], op[4], lo + op[5] - 1, op[6], op[7]))
        elif op[0] == "C":
            # the j-th order was also the j-th placement if every earlier order was placed; otherwise any identifier does
            j = sum(1 for x in h[:op[3] - 1] if x[0] == "O")
            reqs.append("C %d %d %d" % (r.choice([0, pm[op[1]]]), op[2], j))
        elif op[0] in ("snap", "stream", "unsub"):
            reqs.append("%s %d %d %d" % ({"snap": "S", "stream": "R", "unsub": "U"}[op[0]], op[2], op[3], pm[op[1]]))
        elif op[0] == "logon":
            reqs.append("L %d %d %d %d %d" % (op[1], pm[1], k, pm[3], 5))
        else:
            reqs.append("X %d" % op[1])
    # make what was asked for visible: move the quotes, trade, and look once more
    tail = ["O %d 1 1 0 %d 1 0" % (pm[1], lo), "O %d 2 2 1 %d 1 2" % (pm[1], lo), "S 2 1 %d" % pm[1], "O %d 2 1 1 %d 9 0" % (pm[2], lo + 1)]
    return t + (["A " + " ; ".join(reqs)] if late else ["A " + x for x in reqs]) + ["A " + x for x in tail]


def xrand(r, n):
    kind, lo = r.choice("st"), r.choice([1, 99, 4000])
    hi = lo + r.choice([1, 3, 9])
    np = r.choice([2, 3, 5])
    inst = r.sample(range(1, N + 1), r.choice([1, 2, 3]))
    traded = sorted(set(inst if r.random() < .7 else inst[1:]) | set(r.sample(range(1, N + 1), r.choice([0, 1]))))
    t, k = [xhead(r, kind, lo, hi, inst, traded, np)], 0
    anyi = inst + traded
    for _ in range(r.randint(5, n)):
        rs = []
        for _ in range(r.choice([1, 1, 1, 1, 2, 3])):
            x, a = r.random(), r.randint(1, np)
            if x < .5:
                own = a if r.random() < .85 else r.randint(1, np)
                z = r.random()
                p, lot = r.randint(lo, hi), 100
                if kind == "s" and z < .03:
                    p = r.choice([lo - 1, hi + 1])
                elif kind == "s" and z < .05:
                    lot = 50
                rs.append("O %d %d %d %d %d %d %d %d" % (r.choice(inst), a, own, r.randint(0, 1), p, r.choice([1, 1, 2, 3, 10, 0 if z > .98 else 1]), r.choice([0, 0, 0, 0, 1, 2]), lot))
                k += 1
            elif x < .65:
                rs.append("C %d %d %d" % (r.choice([0, 0, 0, r.choice(anyi)]), a, r.randint(max(0, k - 8), k)))
            elif x < .7:
                rs.append("S %d %d %s" % (a, r.choice([0, 1, 5]), " ".join(map(str, r.sample(sorted(set(anyi)), r.randint(1, len(set(anyi))))))))
            elif x < .82:
                rs.append("R %d %d %s" % (a, r.choice([0, 1, 1, 255]), " ".join(map(str, r.sample(sorted(set(anyi)), r.randint(1, len(set(anyi))))))))
            elif x < .88:
                rs.append("U %d 0 %s" % (a, " ".join(map(str, r.sample(sorted(set(anyi)), r.randint(1, len(set(anyi))))))))
            elif x < .95:
                rs.append("L %d %s" % (a, " ".join("%d %d" % (i, r.choice([0, 1, 7, 100])) for i in r.sample(traded, r.randint(0, len(traded))))))
            else:
                rs.append("X %d" % a)
        t.append("A " + " ; ".join(rs))
        if r.random() < .02 and set(range(1, N + 1)) - set(inst):
            t.append("A O %d 1 1 0 %d 1 0" % (r.choice(sorted(set(range(1, N + 1)) - set(inst))), lo))
    return t


def exchange(c):
    q = c.quick()
    exe = vlib.build("exchange")
    hs = vlib.printed(c.design("Exchange_MC", XMC % ("1,2", "1,2", "1", "0", kinds(*ALL), 3, "TRUE"), "emit"), "TEST")
    c.extra["tests_from_tlc"] = len(hs)
    if q:
        c.design("Exchange_MC", XMC % ("1,2", "1,2", "1,2", "0,2", kinds("order", "cancel", "stream"), 3, "FALSE"), "deep")
    else:
        c.design("Exchange_MC", XMC % ("1,2", "1", "1,2", "0", kinds("order", "cancel", "snap", "stream"), 4, "FALSE"), "deep", timeout=400)
        c.design("Exchange_MC", XMC % ("1", "1,2", "1", "0,1,2", kinds(*ALL), 4, "FALSE"), "lives", timeout=400)
    m = 2500 if q else 20000
    if len(hs) > m:
        hs = [h for h in hs if len(h) < 3] + c.rng.sample([h for h in hs if len(h) == 3], m)
    c.conform(exe, [xtlc(c.rng, h) for h in hs], "ExchangeTrace", TR % "C10", "tlc")
    c.conform(exe, [xrand(c.rng, 50 if q else 120) for _ in range(500 if q else 5000)], "ExchangeTrace", TR % "C10", "rand")
    c.assumptions += ["all messages of an activation arrive at the same time and are handled in order of arrival; the latency model is deterministic per recipient"]


CHECKS = {"C09": engine, "C10": exchange}
_T = "TLA+ specifications %s checked with TLC; replay of TLC-enumerated histories in the C++ %s and trace validation of everything it publishes"
INFO = {"C09": (_T % ("Books/Engine", "matching engine"),
                "Design: every instrument's book equals the book that sees only its own requests, for all interleavings up to the bound; binding: after every "
                "request the reports, quotes and open orders of all books are compared with the specification."),
        "C10": (_T % ("Books/Exchange", "exchange"),
                "Design: owners can account for their resting orders and subscribers for the best quotes from the messages alone, for all histories up to "
                "the bound; binding: outbox (recipients, instruments, order of reports, latencies, market data), positions and books after every activation.")}
