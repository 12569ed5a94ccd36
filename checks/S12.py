"""S12: the measurement of CPU speed."""
import fw, scr
from scr import limbs
ASSUMPTIONS = ["the clocks are scripted; the work is performed or left out, and its cost is 4Nrp core operations",
               "a clock that never advances is not explored"]

def ratio(hexfloat):
    x = float.fromhex(hexfloat)
    if not 0 <= x < float("inf"):
        return [], [1]
    a, b = x.as_integer_ratio()
    return limbs(a), limbs(b)

def events(r):
    return [dict(e, ns=limbs(e["ns"])) if e["e"] in ("clk", "res") else dict(e, ns=limbs(e["ns"]), n=limbs(e["n"])) if e["e"] == "rep" else e
            for e in r["ev"] if e["e"] in ("clk", "res", "work", "rep")]

def measure(vh, c):
    vh.call("clock", c["tail"], c["res"], c.get("rres", c["res"]), *c["items"])
    vh.call("kdf", 2, 0, 0, c.get("fail", 0), c.get("fake", 1))
    if c["what"] == "perf":
        r = vh.call("cpuperf")
        num, den = ratio(r["opps"])
        last = dict(e="ret", rc=r["rc"], num=num, den=den)
    elif c["what"] == "time":
        r = vh.call("mono", 0)
        last = dict(e="gottime", rc=r["rc"], sec=limbs(max(0, r["sec"])), usec=r["usec"])
    else:
        r = vh.call("mono", 2)
        num, den = ratio(r["res"])
        last = dict(e="gotres", rc=r["rc"], num=num, den=den)
    vh.call("clock")
    vh.call("kdf", 0, 0, 0, 0, 0)
    return dict(ev=events(r) + [last])

def run(ctx):
    ctx.equiv(("nat",), ctx.t(2, 10))
    g = ctx.rng
    for tick in (1, 2, 3, 5):
        ctx.design("PerfAlg", cfg_text="CONSTANTS Tick = %d MaxNow = %d\nINIT AInit\nNEXT ANext\nCONSTRAINT Bounded\nINVARIANTS Sound Ends Counts\nCHECK_DEADLOCK FALSE\n" % (tick, ctx.t(24, 60)))
    cs = []
    RES = [0, 1, 100, 999, 1000, 1001, 1999, 2000, 4000000, 10000000, 999999999, 1000000000, 1000000001, 2000000000, 3000000000]
    T0 = [0, 1, 999, 1000, 999999999, 999999000, 1000000000, 5 * 10 ** 9 + 123456789, 86400 * 365 * 50 * 10 ** 9 + 7]
    def add(**k):
        cs.append(dict(k))
    # every resolution with steady clocks of many rates
    for res in RES:
        for t0 in T0:
            for step in {1000, max(1000, res // 3 + 1), max(1000, res), res + 1000, res * 7 + 1500, 10 ** 9, g.randrange(1000, 10 ** 10)}:
                if res / step > 60:
                    continue
                add(what="perf", res=res, tail=step, items=["m%d" % t0])
    # clocks that stand, jump, go back
    for _ in range(ctx.t(700, 8000)):
        res = g.choice(RES)
        t = g.choice(T0) + g.randrange(10 ** 10)
        items = []
        clk = g.choice("mmmr")
        if clk == "r":
            items = ["M%d" % g.choice([38, 22])]
        top = t
        for _ in range(g.randrange(1, 14)):
            t = max(0, t + g.choice([0, 0, 1, 999, 1000, 1001, res, res - 1, res + 1, res // 1000 * 1000, 10 ** 9, -1000, -10 ** 9, g.randrange(10 ** 9)]))
            items.append("%s%d" % (clk, t))
            top = max(top, t)
        items += ["%s%d" % (clk, top + i * (res // 3 + 1000)) for i in range(1, 5)]     # forward at last
        add(what="perf", res=res if clk == "m" or g.random() < .5 else "E%d" % g.choice([38, 22]), rres=res, items=items, tail=max(1000, res // g.choice([1, 2, 5]) + g.randrange(2000)))
    # equality with the resolution
    for d in (1, 2, 3, 10):
        for extra in (0, 1000, -1000, 10 ** 6):
            t0 = g.randrange(10 ** 9)
            items = ["m%d" % t0, "m%d" % (t0 + 10 ** 9), "m%d" % (t0 + 10 ** 9)] + ["m%d" % (t0 + 10 ** 9 * (1 + d) + extra)] * 3
            add(what="perf", res=d * 10 ** 9, tail=10 ** 9, items=items)
    # every query failing in every way
    for k in range(8):
        for e in (38, 22, 1, 5, 14, 12, 4, 11, 95, 19):
            for clk in ("m", "r"):
                t = g.randrange(10 ** 9)
                steps = [10 ** 6 * i for i in range(k + 1)]
                items = ["%s%d" % (clk, t + s) for s in steps] + [("M%d" if clk == "m" else "R%d") % e]
                if clk == "m" and e in (38, 22):
                    # not supported from the start, or a change on the way
                    items = ["M%d" % e] + ["r%d" % (t + s) for s in steps]
                else:
                    items = (["M38"] if clk == "r" else []) + items
                add(what="perf", res=g.choice([1, 3 * 10 ** 6, 10 ** 9]) if clk == "m" else "E22", rres=g.choice([1, 10 ** 6]), tail=10 ** 6, items=items)
    for e in (38, 22, 1, 5, 14, 4, 95):
        for e2 in (38, 22, 1, 5, 0):
            add(what="perf", res="E%d" % e, rres="E%d" % e2 if e2 else 1000, tail=5000, items=["m0"])
            add(what="res", res="E%d" % e, rres="E%d" % e2 if e2 else 1000, tail=5000, items=["m0"])
            add(what="time", res=1, tail=0, items=["M%d" % e, "R%d" % e2 if e2 else "r12345678901"])
    for res in RES:
        add(what="res", res=res, tail=0, items=[])
        add(what="res", res="E38", rres=res, tail=0, items=[])
    for t in T0 + [g.randrange(1 << 60) for _ in range(60)]:
        add(what="time", res=1, tail=0, items=["m%d" % t])
        add(what="time", res=1, tail=0, items=["M22", "r%d" % t])
    # the work failing
    for k in range(1, 12):
        for res in (1, 3 * 10 ** 6, 10 ** 9):
            add(what="perf", res=res, tail=10 ** 6, items=["m0", "m0", "m0"], fail=k)
    # the work done in earnest
    for c in g.sample([c for c in cs if c["what"] == "perf"], 150):
        cs.append(dict(c, fake=0))
    # a clock that stands for very many rounds: counts over 32 bits
    for n in (1000, 100000, 9000001) + ctx.t((), (20000000, 40000003)):
        for res in (1, 10 ** 9):
            add(what="perf", res=res, tail=10 ** 9, items=["m0", "h%d" % min(n, 1000), "m5000000", "m5000000", "h%d" % n])
            add(what="perf", res=10 ** 9, tail=10 ** 9, items=["m0", "m5000000", "m5000000", "m5000999", "h%d" % n, "m700000000", "h%d" % (n // 2)])
    ctx.conform("PerfTrace", cs, measure, trace=True, what="measurements")
    ctx.conform("PerfTrace", g.sample(cs, 300), measure, trace=True, what="sanitized", variant="san")
