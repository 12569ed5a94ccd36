"""S10: the choice of parameters."""
import math
from fractions import Fraction
import fw, scr
from scr import p8, cli, limbs
from S09 import case, call, ops, clock, header_of, kdfs, warnings
import S09
ASSUMPTIONS = S09.ASSUMPTIONS + ["memory budgets from 2^60 bytes on are not explored"]

def pick(g, mem, n, d, time, **k):
    return case(g, "pick", (0, 0, 0), mem, n, d, time, **k)

def command(vh, c):
    r = cli(["enc"] + c["args"] + ["--passphrase", "env:PW", "-"], stdin=b"abcd", env={"PW": "pw"}, cmds=[c["lim"], clock(c["n"], c["d"]), ["kdf", 1, 1, 0, 0, 1]])
    num, den = ops(c["n"], c["d"], c["time"])
    rec = dict(op="pick", logN=0, r=[], p=[], force=c["force"], mem=limbs(max(c["mem"], 1 << 20)), num=num, den=den,
               rc=r.rc, kdf=kdfs(r.ev), warn=warnings(r.err.decode("latin1")))
    if r.rc == 0:
        rec["hdr"] = rec["params"] = header_of(r.out)
    return rec

def run(ctx):
    ctx.equiv(("nat",), ctx.t(2, 10))
    g = ctx.rng
    D = "CONSTANTS Scale = %d Cap = %d MaxMem = %d MaxOps = %d\nINIT PdInit\nNEXT PdNext\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
    for scale, cap, mm, mo in ((256, 100, 4608, 700), (512, 16, 2600, 400)) if not ctx.thorough else ((256, 100, 20000, 1500), (512, 16, 9000, 1000), (128, 1000, 20000, 2500)):
        ctx.design("PickDesign", cfg_text=D % (scale, cap, mm, mo))
    ctx.prove("PickFull", args=["--init=PfInit", "--next=PfNext", "--inv=PfInv", "--length=1", "--no-deadlock"])
    cs = []
    # memory around every power of two, with time short, about enough, and ample
    for k in list(range(10, 51)) if ctx.thorough else list(range(10, 32)) + [32, 33, 40, 47, 49]:
        for e in (-1024, -1, 0, 1, 1023):
            m = (1024 << k) + e
            for t in (0.001, m / 32, m / 32 - 1 / 4, m / 32 + 1 / 4, m / 64, m / 16, m * 3, m * 1e3, 1e18, math.inf):
                cs.append(pick(g, m, 1, 1, t / 512))
    # time around every multiple that makes a difference
    for k in range(4, 40):
        for f in (1, 2, 3, 5, 8, 100):
            for e in (-1, 0, 1):
                o = (f << k + 5) + e
                a = g.randrange(0, 8)
                for m in (1 << 20, 1 << 24, 1 << 30, (1 << 40) + 5, (1 << 33) - 1):
                    cs.append(pick(g, m, 1 << a, g.choice([1, 2, 4]), float(Fraction(o) / 512 / 2 ** a)))
    # the largest p
    for m in (0, 1, 1 << 20, (1 << 21) - 1, 1 << 23):
        n = max(m, 1 << 20) // 1024
        n = 1 << (n.bit_length() - 1)
        for p in ((1 << 27) - 2, (1 << 27) - 1, 1 << 27, (1 << 27) + 1, 1 << 28, 1 << 29, 1 << 30, 1 << 40, 1 << 60):
            for e in (-1, 0, 1):
                o = 32 * n * p + e
                if S09.fit53(o):
                    cs.append(pick(g, m, 1, 1, float(Fraction(o) / 512)))
    for _ in range(ctx.t(1500, 30000)):
        cs.append(pick(g, g.randrange(1 << g.randrange(1, 60)), g.randrange(1, 50), g.choice([1, 1, 2, 3, 7, 10]), g.choice([0, 5, 1e-9, math.inf, g.random() * 2.0 ** g.randrange(-20, 60)])))
    for c in g.sample(cs, 200):
        cs.append(dict(c, force=1))
    if not ctx.thorough:
        cs = g.sample(cs, min(len(cs), 6500))
    ctx.conform("S09", cs, call, what="library")
    ctx.conform("S09", g.sample(cs, ctx.t(500, 3000)), call, what="sanitized", variant="san")
    ks = []
    for _ in range(ctx.t(250, 1500)):
        c = dict(n=g.choice([1, 2, 64, 300]), d=g.choice([1, 2]), force=0)
        total = g.choice([1 << g.randrange(20, 50), g.randrange(1 << 40)])
        c["lim"] = ["lim", "inf", "inf", "inf", total, 1, 4096, 1 << 46]
        frac, tl, mm, args = 0.125, 5.0, 0, []
        if g.random() < .5:
            frac = g.choice([0.5, 0.25, 0.125, 0.0625])
            args += g.choice([["-m", repr(frac)], ["-m%r" % frac]])
        if g.random() < .5:
            mm = 1 << g.randrange(1, 50)
            args += g.choice([["-M", str(mm)], ["-M%dB" % mm]])
        if g.random() < .6:
            tl = g.choice([0.0, 0.5, 1.0, 64.0, 2.0 ** g.randrange(40), float(g.randrange(1000))])
            args += g.choice([["-t", repr(tl)], ["-t%r" % tl]])
        if g.random() < .2:
            args.append("-v")
        m = int(total * frac)
        c.update(mem=min(m, mm) if mm else m, time=repr(tl), args=args)
        ks.append(c)
    ctx.conform("S09", ks, command, what="command")
