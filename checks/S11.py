"""S11: the memory budget."""
import itertools, resource
import fw, scr
from scr import limbs
ASSUMPTIONS = ["the answers of the system are scripted, except in the cases that set the real limits of the process",
               "amounts from 2^62 bytes on are not explored"]
NUM = lambda v: dict(k="num", v=limbs(v), e=0)
def q(x, sysconf=False):
    if x == "inf":
        return dict(k="inf", v=[], e=0)
    if x == "L" or (sysconf and x == "E22"):
        return dict(k="none", v=[], e=0)
    if isinstance(x, str):
        return dict(k="err", v=[], e=int(x[1:]))
    return NUM(x)

def rec(c, r):
    fn, fd = float(c["frac"]).as_integer_ratio()
    a = c["lim"]
    return dict(**{"as": q(a[0])}, rss=q(a[1]), total=q(a[3]), unit=q(a[4]), page=q(a[5], 1), phys=q(a[6], 1), maxmem=limbs(c["maxmem"]),
                fnum=limbs(fn), fden=limbs(fd), rc=r["rc"], mem=limbs(r["mem"]))

def scripted(vh, c):
    vh.call("lim", *c["lim"])
    r = vh.call("memtouse", c["maxmem"], c["frac"])
    vh.call("lim")
    return rec(c, r)

def totalram():
    for s in open("/proc/meminfo"):
        if s.startswith("MemTotal:"):
            return int(s.split()[1]) * 1024

def real(_, c):
    def pre():
        for k, v in ((resource.RLIMIT_AS, c["lim"][0]), (resource.RLIMIT_RSS, c["lim"][1]), (resource.RLIMIT_DATA, c["lim"][2])):
            if v != "inf":
                resource.setrlimit(k, (v, resource.RLIM_INFINITY))
    with fw.VH(pre=pre) as vh:
        return rec(c, vh.call("memtouse", c["maxmem"], c["frac"]))

def run(ctx):
    ctx.equiv(("nat",), ctx.t(2, 10))
    g = ctx.rng
    M = 1 << 20
    FR = ["1", "0.5", "0.125", "0.25", "0.1", "0.7", "0.001", "1e-9", "0.9999999999", "1e-300", "0.3333", "0.6"]
    GOOD = ["inf", "inf", 1 << 40, 1 << 30, 1, 1 << 40, 1 << 20]
    AMT = [0, 1, M - 1, M, M + 1, 2 * M, 8 * M - 1, 8 * M, 8 * M + 8, 3 * M + 12345, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, 1 << 36, 1 << 40, (1 << 52) + 1, (1 << 53) - 1, (1 << 53) + 1, 1 << 61]
    ERR = ["E1", "E5", "E12", "E14", "E38"]
    cs = []
    def add(lim, maxmem=0, frac="1"):
        cs.append(dict(lim=list(lim), maxmem=maxmem, frac=frac))
    # each limit alone binding, with all amounts and fractions
    for i in (0, 1, 3, 5):
        for v in AMT:
            l = ["inf", "inf", "inf", 1 << 50, 2048, 4096, 1 << 49]
            if i == 3:
                l[3], l[4] = v, 1
            elif i == 5:
                l[5], l[6] = 1, v
            else:
                l[i] = v
            for f in FR:
                add(l, g.choice([0, 0, 0, 1, M, 5 * M]), f)
    # maximum against the rest
    for v in AMT:
        for mm in AMT:
            add(["inf", "inf", "inf", v, 1, 4096, 1 << 49], mm, g.choice(FR))
    # the data limit has no influence here (memory is mapped)
    for v in (0, 1, M, 1 << 40):
        add(["inf", "inf", v, 1 << 30, 1, 4096, 1 << 20])
    # each query failing, or unsupported, among good and bad others
    for i in range(7):
        for e in ERR + ["E22"]:
            if i == 2:
                continue
            for _ in range(3):
                l = list(GOOD)
                l[i] = e
                add(l, g.choice([0, M, 1 << 33]), g.choice(FR))
    for a in ("L", "E22", "E5", 4096):
        for b in ("L", "E22", "E5", 1 << 20, 300):
            for c in (1 << 40, 2 * M, "E38"):
                l = list(GOOD)
                l[5], l[6], l[3] = a, b, c
                for f in ("1", "0.5"):
                    add(l, 0, f)
    # everything together
    for _ in range(ctx.t(2500, 40000)):
        amt = lambda: g.choice(AMT + [g.randrange(1 << g.randrange(1, 60))])
        ri = lambda: g.choice(["inf", "inf", amt(), amt(), g.choice(ERR) if g.random() < .1 else amt()])
        l = [ri(), ri(), ri() if 0 else "inf"]
        u = g.choice([1, 1, 4096, 65536, 3])
        l += [amt() // u, u] if g.random() < .95 else [g.choice(ERR), 1]
        p = g.choice([4096, 1, 16384, 65536])
        l += [p, amt() // p]
        if g.random() < .2:
            l[g.choice([5, 6])] = g.choice(["L", "E22", "L", "E5"])
        add(l, g.choice([0, amt()]), g.choice(FR + [repr(g.random() or .5)]))
    ctx.conform("S11", cs, scripted, what="scripted limits")
    ctx.conform("S11", g.sample(cs, 400), scripted, what="scripted limits, sanitized", variant="san")
    # the real limits of a process
    tr = totalram()
    import os
    ps, pp = os.sysconf("SC_PAGE_SIZE"), os.sysconf("SC_PHYS_PAGES")
    rs = []
    for a in ("inf", 1 << 30, (1 << 28) + 12345, 1 << 50):
        for b in ("inf", 3 * M, M // 2, 1 << 33, 1 << 51):
            for d in ("inf", 1 << 27):
                rs.append(dict(lim=[a, b, d, tr, 1, ps, pp], maxmem=g.choice([0, 0, 2 * M, 1 << 29]), frac=g.choice(FR)))
    ctx.conform("S11", rs, real, fresh=True, make=lambda: fw.VH(), what="real limits")
