"""S02: the key-derivation function's contract (spec Kdf), validated on traces
of allocator and work events of real calls."""
import fw
ASSUMPTIONS = ["munmap of memory obtained from mmap does not fail",
               "64-bit size_t; very large arrays are reserved but not touched (PBKDF2 and SMix are stubs there)"]
CPUS = [[1, 1, 1, 1, 1], [0, 0, 0, 0, 0]]
def limbs(x):
    r = []
    while x:
        r.append(x & 32767)
        x >>= 15
    return r

NEXT = dict(pw="6e657874", salt="73616c74", N=16, r=2, p=1, len=40)
def nxt(vh):
    r = vh.call("scrypt", 0, NEXT["pw"], NEXT["salt"], NEXT["N"], NEXT["r"], NEXT["p"], NEXT["len"])
    return dict(NEXT, e="next", rc=r["rc"], guards=r["guards"], out=r["out"], live=r["live"])

def one(vh, c):
    if not getattr(vh, "warm", False):
        vh.warm = True
        if c.get("cpu"):
            vh.call("cpu", *c["cpu"])
        if not c.get("cold"):
            vh.call("scrypt", 0, "70", "73", 2, 1, 1, 32)
    ev = []
    if c.get("stub"):
        vh.call("stub", 1, 2)
    for k in ([c["fail"]] if "fail" in c else [(0, 0)]):
        vh.call("trk", 1, k[0], k[1], (1 << 20) if c.get("stub") else 0)
        ev.append(dict(e="call", N=limbs(c["N"]), r=limbs(c["r"]), p=limbs(c["p"]), len=limbs(c["len"])))
        r = vh.call("scrypt", c.get("which", 0), "7061", "7361", c["N"], c["r"], c["p"], c["len"], 3, min(c["len"], 100))
        ev += r["ev"]
        ev.append(dict(e="ret", rc=r["rc"], live=r["live"], guards=r["guards"], untouched=r["untouched"]))
    vh.call("trk", 0, 0, 0, 0)
    vh.call("stub", 0, 0)
    if c.get("next", True):
        ev.append(nxt(vh))
    rec = dict(ev=ev, allocs=r["allocs"])
    return rec

def run(ctx):
    ctx.equiv(("scrypt",), 1)
    ctx.design("Kdf", cfg_text="INIT KInit\nNEXT KNext\nINVARIANT KInv\nCHECK_DEADLOCK FALSE\n")
    g = ctx.rng
    Ns = [0, 1, 2, 3, 4, 5, 6, 7, 12, 16, 255, 256, 1 << 20, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1, (1 << 32) + 2, 3 << 32, 1 << 35, 1 << 48, 1 << 52, 1 << 55, 1 << 56, 1 << 57, 1 << 58, 1 << 60,
          1 << 62, 1 << 63, (1 << 63) + 2, (1 << 63) + (1 << 32), (1 << 64) - 1, (1 << 64) - 2]
    rs = [0, 1, 2, 3, 8, 127, 128, 1 << 15, 32767, (1 << 29) - 1, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 30) + 1, 1 << 31, (1 << 32) - 1, 1 << 16, 46341]
    lens = [0, 1, 32, 100, ((1 << 32) - 1) * 32 - 1, ((1 << 32) - 1) * 32, ((1 << 32) - 1) * 32 + 1, (1 << 37), 1 << 63, (1 << 64) - 1]
    cs = []
    def add(N, r, p, L):
        cs.append(dict(N=N, r=r, p=p, len=L, stub=1, which=g.choice([0, 0, 1]), next=g.random() < .1))
    for N in Ns:
        for r in rs:
            add(N, r, 1, 32)
            add(N, 1, r, 32)
        for L in lens:
            add(N, 1, 1, L)
    for r in rs:
        for p in rs:
            add(2, r, p, 32)
            add(1 << 20, r, p, 32)
        for L in lens:
            add(16, r, 1, L)
            add(16, 1, r, L)
    for _ in range(ctx.t(800, 20000)):
        add(g.choice(Ns + [g.getrandbits(64), 1 << g.randrange(64)]), g.choice(rs + [g.getrandbits(g.randrange(1, 33))]),
            g.choice(rs + [g.getrandbits(g.randrange(1, 33))]), g.choice(lens + [g.getrandbits(38)]))
    # accepted calls with very many blocks take seconds each: only a few
    big = [c for c in cs if c["p"] > 1 << 22 and 0 < c["r"] * c["p"] < 1 << 30]
    g.shuffle(big)
    keep = set(id(c) for c in big[:ctx.t(12, 100)])
    cs = [c for c in cs if not (c["p"] > 1 << 22 and 0 < c["r"] * c["p"] < 1 << 30) or id(c) in keep]
    ctx.conform("KdfTrace", cs, one, trace=True, what="domain")
    # every allocation failure, one at a time and from then on, warm and cold
    fs = []
    for N, r, p in ((2, 1, 1), (16, 8, 2), (1024, 1, 1)):
        for cpu in CPUS:
            for cold in (0, 1):
                for k in range(1, ctx.t(10, 14)):
                    for f in ((k, 0), (0, k)):
                        fs.append(dict(N=N, r=r, p=p, len=50, cpu=cpu, cold=cold, fail=f, which=g.choice([0, 1])))
    recs = ctx.conform("KdfTrace", fs, one, trace=True, what="allocation_failures", fresh=True)
    # bad calls between good ones, in one process
    hs = []
    for _ in range(ctx.t(120, 1500)):
        c = dict(g.choice(cs))
        c["next"] = True
        hs.append(c)
        hs.append(dict(N=g.choice([2, 4, 8]), r=g.choice([1, 3]), p=1, len=33, fail=(g.randrange(1, 6), 0)))
    ctx.conform("KdfTrace", hs, one, trace=True, what="histories", nproc=4)
    # the same under AddressSanitizer and UBSan, without stubs, small sizes
    ss = [dict(N=1 << e, r=r, p=p, len=L) for e in (1, 2, 5) for r in (1, 2, 7) for p in (1, 2, 5) for L in (0, 1, 32, 65)]
    ss += [dict(N=n, r=r, p=p, len=L) for n in (0, 1, 3, 1 << 60) for r in (0, 1, 1 << 30) for p in (0, 1, 1 << 30) for L in (0, 40)]
    ss += [dict(N=4, r=2, p=2, len=40, fail=(k, 0)) for k in range(1, 6)]
    ctx.conform("KdfTrace", ss, one, trace=True, what="sanitized", variant="san", nproc=4)
