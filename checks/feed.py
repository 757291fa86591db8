"""C34: recorded order feeds.  C35: quotes of a market maker."""
import vlib
FMC = """SPECIFICATION MCSpec
CONSTANTS Types = {%s} Statuses = {%s} Reasons = {%s} Sides = {%s} Scales = {%s} Most = %d Emit = %s
INVARIANTS Faithful Session
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
MMC = """SPECIFICATION MCSpec
CONSTANTS Mids = {%s} Stocks = {%s} Times = {%s} Sigmas = {%s} Gammas = {%s} Rates = {%s} Dens = {%s} Emit = %s
INVARIANTS Straddle Flat
PROPERTY Lean
ACTION_CONSTRAINT EmitTests
CHECK_DEADLOCK FALSE
"""
TR = 'SPECIFICATION TraceSpec\nPOSTCONDITION TraceAccepted\nCHECK_DEADLOCK FALSE\n'
TYPES = [1, 2, 5, 10, 19, 20, 22, 24, 27, 34, 35]
SYMBOLS = [b"A", b"AB", b"A B", b"IBM", b"BRK A", b"", b"ABCDEFGHIJK", b" A"]


def rec(r, kind, status, reason, side, scale, sym=None, time=None, num=None, qty=None):
    b = bytearray(r.randrange(256) for _ in range(71))
    put = lambda o, v, w: b.__setitem__(slice(o, o + w), v.to_bytes(w, "big"))
    put(4, kind, 2)
    b[10:21] = (sym if sym is not None else r.choice(SYMBOLS)).ljust(11)
    put(27, time if time is not None else r.choice([0, 1, 999, 1000, 4294967, 4294968, 34200000, 57600000, 86399999, r.randrange(86400000)]), 4)
    put(31, r.choice([0, 1, 255, 256, 999, r.randrange(1000)]), 2)
    b[34], b[40], b[55], b[57] = status, scale, side, reason
    put(41, num if num is not None else r.choice([0, 1, 12, 255, 256, 65536, 1999999, 2 ** 31, 2 ** 32 - 1, r.randrange(2 ** 24)]), 4)
    put(49, qty if qty is not None else r.choice([0, 1, 100, 256, 65535, 2 ** 31, 2 ** 32 - 1, r.randrange(10 ** 6)]), 4)
    return bytes(b).hex()


def any_rec(r):
    kind = r.choice([230, 231, 230, 231, 231, r.choice(TYPES), r.choice([0, 229, 232, 59136, 231 * 256, 65535])])
    return rec(r, kind, r.choice([79, 79, 79, 80, 69, 66, 76, 88, 67, 72]), r.choice([79, 67, 79, 67, 69, 88, 32]), r.choice([66, 83]), r.choice([0, 1, 2, 3, 4, 4, 4, 5, 6, 8]))


def whole(r):
    t = ["T"]
    for _ in range(r.randint(1, 3)):
        tail = bytes.fromhex(any_rec(r))[:r.choice([0, 0, 1, 6, 35, 60, 70])]      # the beginning of a record
        t.append("F %s %s" % (tail.hex() or "-", " ".join(any_rec(r) for _ in range(r.choice([0, 1, 2, 5, 12])))))
        for s in r.sample(SYMBOLS, 3):
            t.append("S " + (s.hex() or "-"))
    return t


def feed(c):
    q = c.quick()
    exe = c.build("feed", "-DNOFEED", "Feed", flags=("-std=c++20",))
    if c.viol:
        return
    hs = vlib.printed(c.design("Feed_MC", FMC % ("1, 230, 231, 999", "79, 80", "79, 67, 69", "66, 83", "0, 4", 1, "TRUE"), "emit1"), "TEST")
    hs += vlib.printed(c.design("Feed_MC", FMC % ("2, 230, 231", "79, 80", "79, 88" if q else "79, 67, 88", "66", "1, 4", 2 if q else 3, "TRUE"), "emit2"), "TEST")
    c.extra["tests_from_tlc"] = len(hs)
    ts = []
    for i in range(0, len(hs), 4):
        t = ["T"]
        for h in hs[i:i + 4]:
            t += ["F - " + " ".join(rec(c.rng, *x, sym=c.rng.choice([b"A", b"A", b"A B"])) for x in h), "S 41"]
        ts.append(t)
    c.conform(exe, ts, "FeedTrace", TR, "tlc")
    c.conform(exe, [whole(c.rng) for _ in range(300 if q else 4000)], "FeedTrace", TR, "rand")
    c.assumptions += ["prices have at most eight decimals; symbols are padded with spaces"]


def ask(x):
    return "Q %d %d %d %d %d %d %d %d" % (x["mid"], x["long"], x["short"], x["t"], x["sig"], x["g"], x["kk"], x["den"])


def rand_ask(r):
    kk = r.choice([1, 2, 6, 6, 40, 400, r.randint(1, 100)])
    g = r.choice([0, 1, 10, 10, 100, 512, 1024, r.randint(1, 300)])
    g = min(g, 256 * kk)
    sig = r.choice([1, 2, 4, 8, 40, r.randint(1, 80)])
    most = max(1, 10 ** 6 // max(1, g * sig * sig // 16384 + 1) // 1000)
    n = min(most, 10000)
    return dict(mid=r.choice([0, 1, 100, 10000, -500, r.randint(-10 ** 5, 10 ** 6), r.randint(10 ** 9, 5 * 10 ** 9)]), long=r.choice([0, 0, 1, r.randint(0, n)]), short=r.choice([0, 0, 1, r.randint(0, n)]),
                t=r.randint(0, 8), sig=sig, g=g, kk=kk, den=r.choice([1, 100, 100, 1000]))


def maker(c):
    q = c.quick()
    exe = vlib.build("feed", flags=("-DNOFEED",))
    grid = (("0, 10000", "0, 1, 30", "0, 4, 8", "9", "0, 1, 10, 256", "6", "1, 100") if q else
            ("0, 10000", "0, 1, 2, 30", "0, 4, 7, 8", "1, 9, 40", "0, 1, 10, 256, 1024", "4, 6, 400", "1, 100"))
    hs = vlib.printed(c.design("Maker_MC", MMC % (grid + ("TRUE",)), "emit"), "TEST")
    seen = sorted({ask(h) for h in hs})
    c.extra["tests_from_tlc"] = len(seen)
    c.conform(exe, [["T"] + seen[i:i + 25] for i in range(0, len(seen), 25)], "MakerTrace", TR, "tlc", shards=5)
    c.conform(exe, [["T"] + [ask(rand_ask(c.rng)) for _ in range(25)] for _ in range(40 if q else 1500)], "MakerTrace", TR, "rand", shards=6)
    c.assumptions += ["parameters are multiples of powers of two, risk aversion at most the decay of arrivals (the series of the logarithm)", "floating point is good to 1e-5 minor units for quotes below 2^33"]


CHECKS = {"C34": feed, "C35": maker}
INFO = {"C34": ("TLA+ specification Feed (layout and meaning of the records of a recorded order feed) checked with TLC; files written from TLC-generated and random records are read by the C++ code and every reported event is decoded again by the specification",
                "Design: readers interleaved with writers lose, invent and reorder nothing. Binding: every combination of record type, status, reason, side and scale that TLC generates, and random files with partial records; times over the whole day, prices and quantities over 32 bits."),
        "C35": ("TLA+ specification Maker (exact rational quotes with a bounded series for the logarithm) checked with TLC; quotes of the C++ code are compared with it",
                "Design: quotes straddle, inventory moves both quotes and not the spread, flat makers quote around the market, spreads narrow in time. Binding: the parameter grid explored by TLC and random parameters, each quote to the minor unit.")}
