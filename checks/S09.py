"""S09: limits on given parameters.  (Also what S10 shares with it.)"""
import hashlib, math, os, re, struct
from fractions import Fraction
import fw, scr
from scr import limbs, p8, cli, Scratch
ASSUMPTIONS = ["limits and clocks are scripted; keys for large parameters are not derived in earnest, the calls and their parameters are observed",
               "budgets within 2^-50 of what is needed but not equal to it may count as either (floating-point rounding)"]

def clock(n, d):
    """Exactly 512 n / d operations per second."""
    t = 1000000000
    return ["clock", 0, 1, 1, "m0", "m%d" % t, "m%d" % t] + ["m%d" % t] * (n - 1) + ["m%d" % (t * (1 + d))]

def limits(g, mem):
    """A scripted machine, fraction and maximum that give this budget."""
    k = 0 if not mem else g.choice([0, 3, 4]) if mem >> 49 else g.randrange(5)
    big = 1 << 61
    if k == 0:
        return ["lim", "inf", "inf", "inf", mem, 1, 4096, big >> 12], 0, "1"
    if k == 1:
        return ["lim", mem * 2 + g.randrange(2), "inf", "inf", big, 1, 4096, big >> 12], 0, "0.5"
    if k == 2:
        return ["lim", "inf", mem * 8 + g.randrange(8), "inf", big, 1, 4096, big >> 12], 0, "0.125"
    if k == 3:
        return ["lim", "inf", "inf", "inf", big, 1, 4096, big >> 12], mem, g.choice(["1", "0.5"])
    return ["lim", "inf", "inf", "inf", big, 1, 1, mem], big, "1"

def ops(n, d, time):
    x = float(time)
    if x == math.inf:
        return [1], []
    f = Fraction(512 * n, d) * Fraction(x)
    return limbs(f.numerator), limbs(f.denominator)

def kdfs(r):
    return [dict(N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"])) for e in r if e["e"] == "kdf"]

def warnings(err):
    w = [s for s in err.splitlines() if "Warning" in s]
    out = []
    for s in w:
        if s.endswith(": Warning: Explicit parameters might exceed memory limit"):
            out.append("memory")
        elif s.endswith(": Warning: Explicit parameters might exceed time limit"):
            out.append("time")
        else:
            out.append(s)
    return out

def box_for(logN, r, p):
    h = b"scrypt\0" + bytes([logN & 255]) + struct.pack(">II", r, p) + bytes(range(32))
    return h + hashlib.sha256(h).digest()[:16] + bytes(32) + bytes(40)

def header_of(b):
    return dict(logN=b[7], r=limbs(int.from_bytes(b[8:12], "big")), p=limbs(int.from_bytes(b[12:16], "big")))

def call(vh, c):
    vh.call(*c["lim"])
    vh.call(*clock(c["n"], c["d"]))
    vh.call("kdf", 1, 1, 0, 0, 1)
    dec = c["op"] == "dec"
    q = p8(maxmem=c["maxmem"], frac=c["frac"], time=c["time"], verbose=c["verbose"], force=c["force"],
           **({} if c["op"] != "enc" else dict(logN=c["q"][0], r=c["q"][1], p=c["q"][2])))
    if c["via"] == "buf":
        r = vh.call("buf", 1 if dec else 0, box_for(*c["q"]).hex() if dec else "abcd", "7077", *q)
        ev, out = r["ev"], r["out"]
    elif dec and c["via"] == "prep":
        r = vh.call("prep", 1, box_for(*c["q"]).hex(), "0", -1, 0, "7077", *q)
        ev, out = r["ev"], ""
        if r["rc"] == 0:
            vh.call("dfree", 1)
    else:
        r = vh.call("file", 3 if dec else 2, box_for(*c["q"]).hex() if dec else "abcd", "0", -1, -1, 0, "7077", *q)
        ev, out = r["ev"], "".join(e["data"] for e in r["ev"] if e["e"] == "wr")
    vh.call("kdf", 0, 0, 0, 0, 0)
    vh.call("clock")
    vh.call("lim")
    num, den = ops(c["n"], c["d"], c["time"])
    rec = dict(op=c["op"], logN=c["q"][0], r=limbs(c["q"][1]), p=limbs(c["q"][2]), force=c["force"], mem=limbs(max(c["mem"], 1 << 20)), num=num, den=den,
               rc=r["rc"], kdf=kdfs(ev), warn=warnings(bytes.fromhex(r["err"]).decode("latin1")))
    if not dec and r["rc"] == 0:
        rec["hdr"] = header_of(bytes.fromhex(out))
        rec["params"] = dict(logN=r["params"][0], r=limbs(r["params"][1]), p=limbs(r["params"][2]))
    return rec

def command(vh, c):
    """The same of the command."""
    dec = c["op"] == "dec"
    args = ["dec" if dec else "enc"] + c["args"] + ["--passphrase", "env:PW"] + (["-v"] if c["verbose"] else []) + ["-"]
    r = cli(args, stdin=box_for(*c["q"]) if dec else b"abcd", env={"PW": "pw"}, cmds=[c["lim"], clock(c["n"], c["d"]), ["kdf", 1, 1, 0, 0, 1]])
    num, den = ops(c["n"], c["d"], c["time"])
    text = {7: "Input is not valid scrypt-encrypted block", 9: "Decrypting file would require too much memory", 10: "Decrypting file would take too much CPU time",
            11: "Passphrase is incorrect", 14: "Error in explicit parameters", 15: "Decrypting file would require too much memory and CPU time"}
    err = r.err.decode("latin1")
    said = [k for k, s in text.items() if re.search(": " + re.escape(s) + "(\n|: )", err)]
    rc = 0 if r.rc == 0 and not said else said[0] if r.rc == 1 and len(said) == 1 else -1
    rec = dict(op=c["op"], logN=c["q"][0], r=limbs(c["q"][1]), p=limbs(c["q"][2]), force=c["force"], mem=limbs(max(c["mem"], 1 << 20)), num=num, den=den,
               rc=rc if r.rc in (0, 1) else r.rc, kdf=kdfs(r.ev), warn=warnings(err))
    if not dec and rc == 0:
        rec["hdr"] = rec["params"] = header_of(r.out)
    return rec

def case(g, op, q, mem, n, d, time, **k):
    mem = int(float(mem))     # (the scaling is in floating point)
    lim, maxmem, frac = limits(g, mem)
    return dict(dict(op=op, q=list(q), mem=mem, lim=lim, maxmem=maxmem, frac=frac, n=n, d=d, time=repr(float(time)), force=0,
                     verbose=int(g.random() < .1), via=g.choice(["buf", "buf", "file", "prep"] if op == "dec" else ["buf", "file"])), **k)

def fit53(x):
    return x == int(float(x))

def around(g, op, q):
    """Budgets just below, at and above what parameters q need."""
    logN, r, p = q
    need, S = 128 * r << logN, 4 * r * p << logN
    a = g.randrange(0, 9)
    n, d = 1 << a, g.choice([1, 2, 8])
    spd = Fraction(512 * n, d)
    exact = Fraction(S) / spd
    times = [exact, exact * 2, exact / 2, 0, math.inf]
    for e in (-1, 1, -1000, 1000):
        if S + e > 0 and fit53(S + e):
            times.append(Fraction(S + e) / spd)
    times += [Fraction(math.nextafter(float(exact), 0)), Fraction(math.nextafter(float(exact), math.inf))]
    mems = [m for m in (need - 1, need, need + 1, need * 2 - 1, need // 2, need + need // r, need - 128, 0) if m < 1 << 60]
    if need >= 1 << 60:
        mems = [1 << 60, (1 << 59) + 1, 0]
    out = []
    for m in mems:
        for t in times:
            out.append(case(g, op, q, m, n, d, t))
    # a speed that is no power of two
    n = g.randrange(1, 300)
    for f in (0.999, 0.5, 1, 1.0000001, 1.5):
        out.append(case(g, op, q, g.choice(mems), n, 1, float(Fraction(S) * Fraction(f) / (512 * n))))
    return out

def some_q(g):
    logN = g.choice([1, 2, 3, 5, 10, 14, 20, 31, 32, 33, 40, 47, 48, 52, 53, 56, 57, 58, 62, 63, g.randrange(1, 64)])
    r = g.choice([1, 2, 3, 7, 8, 9, 16, 255, 32767, 32768, 65535, 1 << 20, (1 << 29) + 1, (1 << 30) - 1, 1 + g.randrange(1 << g.randrange(1, 30))])
    top = ((1 << 30) - 1) // r
    p = g.choice([1, 1, 2, 3, top, max(1, top - 1), 1 + g.randrange(top), 1 + g.randrange(top)])
    return logN, r, min(p, top)

def invalid(g):
    W = [0, 1, 2, 3, 8, 32767, 32768, 32769, 65535, 65536, 1 << 29, (1 << 30) - 1, 1 << 30, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 65537]
    for logN in (0, 64, 65, 127, 128, 200, 255):
        yield logN, g.choice([1, 8]), 1
    for r in W:
        for p in W:
            if r * p >= 1 << 30 or r * p == 0:
                yield g.choice([1, 10, 63]), r, p

def run(ctx):
    ctx.equiv(("nat",), ctx.t(2, 10))
    ctx.prove("LimitsProof", "tlaps")
    g = ctx.rng
    cs = []
    qs = [some_q(g) for _ in range(ctx.t(45, 600))] + [(63, (1 << 30) - 1, 1), (63, 1, (1 << 30) - 1), (63, 1, 1), (62, 1, 1), (56, 1, 1), (57, 1, 1), (13, 1, 1), (12, 2, 1), (1, 1, 1), (14, 8, 1), (33, 1, 1), (32, 1, 1)]
    for q in qs:
        cs += around(g, "dec", q)
    for q in qs[::3]:
        cs += around(g, "enc", q)
    for q in invalid(g):
        for force in (0, 1):
            cs.append(case(g, "dec", q, 1 << 40, 100, 1, 1e9, force=force))
            if 0 < q[0] < 64 and q[1] and q[2]:
                cs.append(case(g, "enc", q, 1 << 40, 100, 1, 1e9, force=force))
    for q in qs:
        for op in ("dec", "enc"):
            cs.append(case(g, op, q, g.choice([0, 1 << 20, 1 << 30]), 1, 1, g.choice([0, 1e-9, 1]), force=1))
    # random budgets
    for _ in range(ctx.t(1200, 20000)):
        q = some_q(g)
        cs.append(case(g, g.choice(["dec", "dec", "enc"]), q, g.randrange(1 << g.randrange(1, 60)), g.randrange(1, 40), g.choice([1, 2, 3, 7]), g.random() * 2.0 ** g.randrange(-10, 60)))
    if not ctx.thorough and len(cs) > 7000:
        cs = g.sample(cs, 7000)
    ctx.conform("S09", cs, call, what="library")
    ctx.conform("S09", g.sample(cs, ctx.t(600, 3000)), call, what="sanitized", variant="san")
    # the command, with its options and defaults
    ks = []
    for _ in range(ctx.t(250, 1500)):
        op = g.choice(["dec", "dec", "enc"])
        if op == "enc":
            q = (g.randrange(10, 41), g.randrange(1, 33), g.choice([1, 2, 5, 2048]))
        else:
            q = some_q(g) if g.random() < .9 else g.choice(list(invalid(g)))
            if g.random() < .6:
                q = (g.randrange(8, 30), g.choice([1, 8, 16]), g.choice([1, 2, 9]))
        need, S = 128 * q[1] << q[0], 4 * q[1] * q[2] << q[0]
        c = case(g, op, q, 1 << 30, 1 << g.randrange(9), 1, 1)
        total = min(1 << 60, max(1, need * g.choice([1, 2, 4, 8, 16, 3]) - g.choice([0, 0, 1])))
        c["lim"] = ["lim", "inf", "inf", "inf", total, 1, 4096, 1 << 48]
        args, frac, mm = [], 0.5 if op == "dec" else 0.125, 0
        tl = 300.0 if op == "dec" else 5.0
        if g.random() < .5:
            frac = g.choice([0.5, 0.25, 0.125])
            args += ["-m", repr(frac)]
        if g.random() < .5:
            mm = max(1, need - g.choice([0, 0, 1, 5, -1])) if need < 1 << 62 else 1 << 40
            args += ["-M", str(mm)]
        if g.random() < .7:
            t = Fraction(S) / (512 * c["n"])
            tl = g.choice([float(t), float(t / 2), float(t * 2), math.nextafter(float(t), 0), 0.0])
            args += ["-t", repr(tl)]
        if op == "enc":
            args += ["--logN", str(q[0]), "-r", str(q[1]), "-p", str(q[2])]
        if g.random() < .15:
            args.append("-f")
            c["force"] = 1
        c["args"], c["time"] = args, repr(tl)
        m = int(total * frac)
        c["mem"] = min(m, mm) if mm else m
        ks.append(c)
    ctx.conform("S09", ks, command, what="command")
