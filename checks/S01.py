"""S01: scrypt outputs judged against the executable RFC 7914 specification."""
import fw
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "x86-64 with the CPU features of this machine; other architectures' accelerated code is not compiled"]

CPUS = [[1, 1, 1, 1, 1], [0, 0, 0, 0, 0], [0, 0, 0, 1, 1], [0, 0, 0, 1, 0], [1, 0, 1, 0, 0]]

def one(vh, c):
    if "cpu" in c and not getattr(vh, "cpu_set", False):
        vh.call("cpu", *c["cpu"])
        vh.cpu_set = True
    if c["kind"] == "blocks":
        vh.call("scrypt", 0, "70", "73", 2, 1, 1, 32)   # the self-tests run now
        vh.call("trk", 0, 0, 0, 1 << 20)
        vh.call("stub", 1, 1, c["p"])
        r = vh.call("scrypt", 0, "70", "73", c["N"], c["r"], c["p"], 32, timeout=300)
        s = vh.call("stubreport")
        vh.call("stub", 0, 0)
        vh.call("trk", 0, 0, 0, 0)
        return dict(kind="blocks", rc=r["rc"], calls=s["smixcalls"], bad=s["smixbad"], blocks=s["smixblocks"],
                    sN=s["smixN"], sr=s["smixr"], N=c["N"], r=c["r"], p=c["p"])
    if c["kind"] == "long":
        r = vh.call("scryptz", c["pm"], c["pn"], c["pw"] or "-", c["sm"], c["sn"], c["salt"] or "-", c["N"], c["r"], c["p"], c["len"], *c["at"], timeout=600)
        return dict(c, len="%d" % c["len"], at=[], rc=r["rc"], slack=r["slack"], b=r["b"])
    r = vh.call("scrypt", c["which"], c["pw"] or "-", c["salt"] or "-", c["N"], c["r"], c["p"], c["len"], c["mis"], timeout=300 if c["N"] > 1 << 20 else 60)
    return dict(kind="kdf", rc=r["rc"], guards=r["guards"], out=r["out"], pw=c["pw"], salt=c["salt"], N=c["N"], r=c["r"], p=c["p"], len=c["len"])

def cases(ctx, n):
    g = ctx.rng
    cs = []
    def add(**k):
        k.setdefault("which", g.choice([0, 0, 1]))
        k.setdefault("mis", g.choice([0, 1, 3, 4, 8, 13]))
        cs.append(dict(kind="kdf", **k))
    H = lambda s: s.encode().hex()
    add(pw="", salt="", N=16, r=1, p=1, len=64)
    add(pw=H("password"), salt=H("NaCl"), N=1024, r=8, p=16, len=64)
    # boundary lengths of each argument
    for L in (0, 1, 31, 32, 33, 63, 64, 65, 127, 128, 129, 200):
        add(pw=g.randbytes(L).hex(), salt=g.randbytes(8).hex(), N=4, r=1, p=1, len=32)
        add(pw=g.randbytes(8).hex(), salt=g.randbytes(L).hex(), N=4, r=1, p=1, len=32)
        add(pw=g.randbytes(8).hex(), salt=g.randbytes(8).hex(), N=4, r=1, p=1, len=L)
    # every r and p in small ranges, including odd ones and large ones
    for r in list(range(1, 18)) + [25, 32, 33, 64, 100]:
        add(pw=g.randbytes(5).hex(), salt=g.randbytes(5).hex(), N=g.choice([2, 4, 8, 32]), r=r, p=g.choice([1, 2, 3]), len=64)
    for p in list(range(1, 10)) + [17, 63, 200, 513]:
        add(pw=g.randbytes(5).hex(), salt=g.randbytes(5).hex(), N=g.choice([2, 4, 8]), r=g.choice([1, 2]), p=p, len=40)
    for e in range(1, 17):
        add(pw=g.randbytes(5).hex(), salt=g.randbytes(32).hex(), N=1 << e, r=g.choice([1, 2, 8]) if e < 14 else 1, p=1, len=64)
    # texts with special bytes
    for pw in ("00", "0000", "616200", "ff" * 70, "0a"):
        add(pw=pw, salt="00" * 32, N=8, r=2, p=2, len=64)
    # long outputs and texts
    add(pw=g.randbytes(3000).hex(), salt=g.randbytes(3000).hex(), N=2, r=1, p=1, len=5000)
    for _ in range(n):
        N = 1 << g.randrange(1, 9)
        add(pw=g.randbytes(g.randrange(80)).hex(), salt=g.randbytes(g.randrange(80)).hex(), N=N, r=g.randrange(1, 20),
            p=g.randrange(1, 5), len=g.randrange(0, 150))
    return cs

def run(ctx):
    ctx.equiv(("sha", "hmac", "pbkdf2", "salsa", "scrypt", "fscrypt"), ctx.t(1, 4))
    base = cases(ctx, ctx.t(60, 600))
    # The processes differ in the CPU features they see; each runs a long
    # history of calls (one process per configuration runs every case).
    allc = []
    for cpu in CPUS:
        allc.append([dict(c, cpu=cpu) for c in base])
    flat = [c for t in zip(*allc) for c in t]   # case i*5+k -> config k
    ctx.conform("S01", flat, one, nproc=5, what="kdf")
    # the reference implementation in the tree
    ctx.conform("S01", [dict(c, which=2, cpu=CPUS[1]) for c in base[:40]], one, nproc=4, what="kdf_ref")
    # alignment: the same call at every misalignment
    al = [dict(kind="kdf", which=0, mis=m, pw="70617373", salt="73616c74", N=16, r=2, p=2, len=48, cpu=CPUS[0]) for m in range(64)]
    ctx.conform("S01", al, one, nproc=2, what="kdf_align")
    # many blocks: block numbering with more than 2^25 blocks of 128 bytes
    big = [dict(kind="blocks", N=2, r=1, p=(1 << 25) + 3, cpu=CPUS[0]), dict(kind="blocks", N=4, r=1, p=(1 << 25) + 1, cpu=CPUS[1])]
    big += [dict(kind="blocks", N=2, r=33, p=1000, cpu=CPUS[2])]
    if ctx.thorough:
        big += [dict(kind="blocks", N=2, r=3, p=(1 << 30) // 3 - 1, cpu=CPUS[0])]
    ctx.conform("S01", big, one, nproc=2, what="kdf_blocks", fresh=True)
    # passphrases, salts and outputs beyond 2^16 and 2^32 bytes
    g = ctx.rng
    def long(pm=0, pn=0, sm=0, sn=0, len=64, at=(0, 32), **k):
        return dict(dict(kind="long", pm=pm, pn=pn, pw=g.randbytes(5).hex(), sm=sm, sn=sn, salt=g.randbytes(7).hex(), N=4, r=1, p=2, len=len, at=list(at)), **k)
    n = 1 << 32
    longs = [long(pn=1 << 16), long(sn=1 << 16), long(pm=4096), long(sm=4096), long(pm=4096, pn=64 * g.randrange(1000), sm=16, sn=g.randrange(1 << 20), r=3),
             long(pm=1, pn=64, sm=2048, sn=3), long(len=(1 << 20) + 64, at=[0, 65504, 65536, 1 << 20])]
    longs[2:2] = [long(len=n + 96, at=[0, 32, 64, 96, (1 << 31) - 32, 1 << 31, n - 32, n, n + 64])]
    ctx.conform("S01", longs, one, what="kdf_long")
    # working arrays larger than 2^32 bytes
    huge = [dict(kind="kdf", which=0, mis=0, pw="70", salt="73", N=1 << 21, r=17, p=1, len=64, cpu=c) for c in (CPUS[0], CPUS[1])]
    if ctx.thorough:
        huge += [dict(kind="kdf", which=0, mis=0, pw="71", salt="73", N=1 << 24, r=3, p=1, len=64, cpu=c) for c in (CPUS[0], CPUS[1])]
    ctx.conform("S01", huge, one, nproc=2, what="kdf_huge", fresh=True, judge_kw=dict(heap="10g", workers=1))
