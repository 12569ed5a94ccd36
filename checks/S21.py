"""S21: choice of accelerated code, validated on traces of whole processes."""
import itertools
import fw
ASSUMPTIONS = ["an accelerated core is faulty in that its results are changed (or its key expansion fails); x86 only",
               "calls of the accelerated cores are observed at their function boundary"]
P8 = ("0", "0.125", "5", "1", "1", "1", "0", "0")
D8 = ("0", "0.125", "5", "0", "0", "0", "0", "1")
FEAT = ("aesni", "rdrand", "shani", "sse2", "ssse3")
ZERO = dict(e="mend")

def ran(vh):
    c = vh.call("cores")["cores"]
    return dict(shani=c["shani"], shasse2=c["sse2"], smixsse2=c["smix2"], smixsoft=c["smix1"], aesni=c["aesblk"] + c["aesexp"])

def use(vh, c, o, ev):
    k = o["kind"]
    if k == "sha":
        o["out"] = vh.call("shabuf", 1, o["in"] or "-")["out"]
    elif k == "hmac":
        o["out"] = vh.call("hmacbuf", 0, o["key"] or "-", o["in"] or "-")["out"]
    elif k == "aes":
        vh.call("aeskey", 0, o["key"], 0)
        if o.pop("stream"):
            vh.call("ctrinit", 0, 0, "0x" + o["nonce"], 0)
            h = o["in"]
            n = 2 * (len(h) // 4)
            o["out"] = "".join(vh.call("ctr", 0, p or "-", 0, 0)["out"] for p in (h[:n], h[n:]))
            vh.call("ctrfree", 0)
        else:
            o["out"] = vh.call("ctrbuf", 0, "0x" + o["nonce"], o["in"] or "-", 0)["out"]
        vh.call("aeskeyfree", 0)
    elif k == "scrypt":
        r = vh.call("scrypt", 0, o["pw"], o["salt"], o["N"], o["r"], o["p"], o["len"])
        o.update(rc=r["rc"], out=r["out"])
    elif k == "enc":
        r = vh.call("buf", 0, o["plain"], "7077", *P8)
        o["rc"] = r["rc"]
        if r["rc"] == 0:
            c.setdefault("made", []).append(r["out"])
            o["made"] = r["out"]
    elif k == "dec":
        data = ev[-1]["made"] if ev and ev[-1].get("made") else c["box"]
        r = vh.call("buf", 1, data, "7077", *D8)
        o.update(rc=r["rc"], out=r["out"], plain=o["plain"] if data == c["box"] else ev[-1]["plain"])

def one(vh, c):
    feat = vh.call("cpu", *c["cpu"])["cpu"]
    vh.call("fault", *c["fault"])
    vh.call("urandom")
    ran(vh)
    ev = []
    for op in c["ops"]:
        o = dict(op)
        if o["e"] == "mend":
            vh.call("fault", 0, 0, 0, 0, 0)
            ev.append(o)
            continue
        k = o["kind"]
        try:
            use(vh, c, o, ev)
            o["ran"] = ran(vh)
        except fw.VHDied as e:
            ev.append(dict(e="end", kind=k, abort=int("(status -6)" in str(e))))
            break
        ev.append(o)
    bad = dict(shani=int(bool(c["fault"][0])), shasse2=int(bool(c["fault"][1])), smixsse2=int(bool(c["fault"][2])), aesni=int(bool(c["fault"][3] or c["fault"][4])),
               smixsoft=int(bool(c["fault"][5:6] and c["fault"][5])), aessoft=int(bool(c["fault"][6:] and c["fault"][6])))
    return dict(ev=ev, feat=dict(zip(FEAT, feat)), bad=bad)

def cpuid(vh, c):
    a = ["0,0,%d,1,2,3" % c["max"]]
    def w(bits):
        return sum(1 << b for b in bits)
    for leaf, regs in ((1, c["leaf1"]), (7, c["leaf7"])):
        a.append("%d,0," % leaf + ",".join(str(w(x)) for x in regs))
    vh.call("cpuid", *a)
    r = vh.call("cpudetect")
    m = (1 << 32) - 1
    vh.call("cpuid", *["%d,0," % l + ",".join(str(m if l == 0 else m & ~w(x)) for x in (c["leaf1"] if l < 2 else c["leaf7"])) for l in (0, 1, 7)])
    r2 = vh.call("cpudetect")
    return dict(c, det=r["det"], cpu=r["cpu"], later=r2["cpu"])

def run(ctx):
    g = ctx.rng
    ctx.design("AccelDesign", cfg_text="INIT Init\nNEXT Next\nINVARIANT Inv\nPROPERTY Stays\nCHECK_DEADLOCK FALSE\n")
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    # features as CPUID tells them
    cs = []
    full = list(range(32))
    def add(mx, l1, l7):
        cs.append(dict(max=mx, leaf1=l1, leaf7=l7))
    none = [[], [], [], []]
    for mx in (0, 1, 6, 7, 13, 22):
        add(mx, [full] * 4, [full] * 4)
        add(mx, none, none)
        for _ in range(6):
            add(mx, [[b for b in full if g.random() < .5] for _ in range(4)], [[b for b in full if g.random() < .5] for _ in range(4)])
    for leaf in (0, 1):
        for reg in range(4):
            for bit in (full if reg or ctx.thorough else g.sample(full, 8)):
                for neg in (0, 1):
                    one_ = [([bit] if not neg else [b for b in full if b != bit]) if i == reg else ([] if not neg else full) for i in range(4)]
                    other = [full] * 4 if neg else none
                    add(7, one_ if leaf == 0 else other, one_ if leaf == 1 else other)
    ctx.conform("Cpu", cs, cpuid, what="cpuid", fresh=True)
    # machines x faults x first operation
    with fw.VH() as vh:
        vh.call("cpu", 0, 0, 0, 0, 0)
        box = vh.call("buf", 0, b"container".hex(), "7077", *P8)["out"]
    H = lambda n: g.randbytes(n).hex()
    def op():
        k = g.choice(["sha", "hmac", "aes", "aes", "scrypt", "enc", "dec"])
        o = dict(e="op", kind=k)
        if k == "sha":
            o["in"] = H(g.choice([0, 1, 55, 63, 64, 65, 130]))
        elif k == "hmac":
            o.update(key=H(g.choice([1, 32, 65])), **{"in": H(g.choice([0, 20, 64, 100]))})
        elif k == "aes":
            o.update(key=H(g.choice([16, 32])), nonce=H(8), stream=g.randrange(2), **{"in": H(g.choice([1, 15, 16, 17, 48, 100]))})
        elif k == "scrypt":
            o.update(pw=H(8), salt=H(8), N=g.choice([2, 16]), r=g.choice([1, 2]), p=g.choice([1, 2]), len=g.choice([10, 64]))
        elif k == "enc":
            o["plain"] = H(g.choice([1, 20, 100]))
        else:
            o["plain"] = b"container".hex()
        return o
    ts = []
    combos = list(itertools.product(itertools.product((0, 1), repeat=4), (0, 1), (0, 1), (0, 1), (0, 1), (0, 1, 2, 3, 4)))
    if not ctx.thorough:
        # every machine with every set of faulty cores that it has
        combos = [c for c in combos if not (c[1] and not (c[0][1] and c[0][3])) and not ((c[2] or c[3]) and not c[0][2]) and not ((c[4] or c[5]) and not c[0][0])]
    for (aesni, shani, sse2, ssse3), fsh, fs2, fsm, fab, fae in combos:
        n = g.choice([2, 4, 8])
        ops = [op() for _ in range(n)]
        if g.random() < .6 and (fsh or fs2 or fsm or fab or fae):
            # the fault goes away after everything has been used, or in between
            ops[g.choice([n, n // 2]):] = [ZERO] + [op() for _ in range(3)]
        ts.append(dict(cpu=[aesni, g.randrange(2), shani, sse2, ssse3], ops=ops, box=box,
                       fault=[fsh and g.randrange(1, 64), fs2 and g.randrange(1, 64), fsm and g.randrange(1, 128), fab and g.randrange(1, 64), fae]))
    # every place at which a result can be wrong
    for i in range(1, ctx.t(33, 65)):
        for cpu in ([1, 0, 1, 1, 1], [1, 0, 0, 1, 0]):
            ts.append(dict(cpu=cpu, ops=[op() for _ in range(3)], box=box, fault=[i, i if i % 3 else 0, i * 4 - 1, i, 0]))
    # faulty last resorts, too
    for (aesni, sse2), fsm, fab, fs1, fas in itertools.product(itertools.product((0, 1), repeat=2), (0, 1), (0, 1), (0, 1), (0, 1)):
        if fs1 or fas:
            for _ in range(ctx.t(3, 30)):
                ts.append(dict(cpu=[aesni, 0, g.randrange(2), sse2, 1], ops=[op() for _ in range(4)], box=box,
                               fault=[0, 0, fsm and g.randrange(1, 128), fab and g.randrange(1, 64), 0, fs1 and g.randrange(1, 128), fas and g.randrange(1, 64)]))
    ctx.conform("AccelTrace", ts, one, trace=True, what="processes", fresh=True)
