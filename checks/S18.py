"""S18: displayed parameters, needs and times."""
import math, os, struct
from fractions import Fraction
import fw, scr
from scr import limbs, p8, cli, Scratch, make_containers
from S09 import clock, limits, box_for, header_of, some_q, invalid
ASSUMPTIONS = ["limits and clocks are scripted for encryption and decryption; keys for large parameters are not derived in earnest",
               "times may differ from the exact quotient by half a unit of the last place shown and a part in 2^50",
               "failure to allocate memory for the displayed text itself is not explored"]

def size(vh, c):
    return dict(k="size", n=limbs(c["n"]), s=vh.call("humansize", c["n"])["s"], slow=c.get("slow", 0))

def infolib(vh, c):
    r = vh.call("info", c["b"] or "-", c["chunks"], -1, c["unbuf"])
    return dict(k="infolib", b=c["b"], rc=r["rc"], err=bytes.fromhex(r["err"]).decode("latin1"))

def listing(d):
    out = []
    for n in sorted(os.listdir(d)):
        p = os.path.join(d, n)
        out.append((n, open(p, "rb").read() if os.path.isfile(p) else None, os.stat(p).st_mtime_ns))
    return out

def info(vh, c):
    with Scratch() as d:
        b = bytes.fromhex(c["b"])
        name, why, src, cmds, stdin, kw = "", "", "eof", [["kdf", 1, 1, 0, 0, 1]], b"", {}
        if c["how"] == "stdin":
            stdin, arg = b, "-"
        else:
            arg = name = d + "/in"
            if c["how"] == "none":
                src, why = "none", "No such file or directory"
            elif c["how"] == "notdir":
                open(d + "/x", "wb").close()
                arg = name = d + "/x/in"
                src, why = "none", "Not a directory"
            elif c["how"] == "dir":
                os.mkdir(name)
                src, why = "err", "Is a directory"
            else:
                open(name, "wb").write(b)
        if c["how"] == "ioerr":
            cmds.append(["io", name, len(b), d + "/none", -1, 0])
            src, why = "err", "Input/output error"
        args = ["info"] + c["opts"] + [arg]
        if c["outarg"]:
            open(d + "/out", "wb").write(b"keep")
            args.append(d + "/out")
        before = listing(d)
        r = cli(args, stdin=stdin, env={"PW": "x"}, cmds=cmds)
        after = listing(d)
    return dict(k="info", b="" if src == "none" or c["how"] == "dir" else c["b"], src=src, why=why, name=name, rc=r.rc, out=r.out.decode("latin1"), err=r.err.decode("latin1"),
                same=int(before == after), nkdf=sum(e["e"] == "kdf" for e in r.ev) if r.ev is not None else -1)

def quot(x):
    x = float(x)
    if x == math.inf:
        return [1], []
    f = Fraction(x)
    return limbs(f.numerator), limbs(f.denominator)

def verbose(vh, c):
    dec = c["op"] == "dec"
    fake = c["fake"]
    tn, td = quot(c["time"])
    cmds = [c["lim"], clock(c["n"], c["d"]), ["kdf", 1, fake, 0, 0, 1]]
    data = (bytes.fromhex(c["box"]) if c.get("box") else box_for(*c["q"])) if dec else b"abcd"
    rec = dict(k="run", op=c["op"], expl=c["expl"], force=c["force"], verbose=c["verbose"], mem=limbs(c["mem"]), sn=limbs(512 * c["n"]), sd=limbs(c["d"]), tn=tn, td=td,
               goodpw=c["goodpw"], slow=0, cli=int(c["via"] == "cli"))
    if c["via"] == "cli":
        args = [c["op"]] + c["args"] + (["-v"] if c["verbose"] else []) + (["-f"] if c["force"] else []) + ["--passphrase", "env:PW", "-"]
        r = cli(args, stdin=data, env={"PW": "pw"}, cmds=cmds)
        err, rc, out = r.err, r.rc, r.out
    else:
        for x in cmds:
            vh.call(*x)
        q = p8(maxmem=c["maxmem"], frac=c["frac"], time=c["time"], verbose=c["verbose"], force=c["force"],
               **({} if not c["expl"] or dec else dict(logN=c["q"][0], r=c["q"][1], p=c["q"][2])))
        if c["via"] == "buf":
            r = vh.call("buf", 1 if dec else 0, data.hex(), "7077", *q)
        elif c["via"] == "prep":
            r = vh.call("prep", 1, data.hex(), "0", -1, 0, "7077", *q)
            if r["rc"] == 0:
                vh.call("dfree", 1)
        else:
            r = vh.call("file", 3 if dec else 2, data.hex(), "0", -1, -1, 0, "7077", *q)
        vh.call("kdf", 0, 0, 0, 0, 0)
        vh.call("clock")
        vh.call("lim")
        err, rc = bytes.fromhex(r["err"]), r["rc"]
        # (the harness has a name of its own)
        err = err.replace(b"vh: Warning", b"scrypt: Warning").replace(b"(unknown): Warning", b"scrypt: Warning")
        out = bytes.fromhex(r["out"]) if c["via"] == "buf" else b"".join(bytes.fromhex(e["data"]) for e in r["ev"] if e["e"] == "wr")
    rec.update(rc=rc, err=err.decode("latin1"), hlogN=0, hr=[], hp=[])
    q = c["q"]
    if not dec and len(out) >= 96:
        h = header_of(out)
        rec.update(hlogN=h["logN"], hr=h["r"], hp=h["p"])
        if not c["expl"]:
            q = (h["logN"], int.from_bytes(out[8:12], "big"), int.from_bytes(out[12:16], "big"))
    rec.update(logN=q[0], r=limbs(q[1]), p=limbs(q[2]))
    return rec

def bad(vh, c):
    r = cli(["dec", "-v"] + c["opts"] + ["--passphrase", "env:PW", "-"], stdin=bytes.fromhex(c["b"]), env={"PW": "pw"}, cmds=[["lim", "inf", "inf", "inf", 1 << 40, 1, 4096, 1 << 30], clock(100, 1)])
    return dict(k="bad", b=c["b"], rc=r.rc, err=r.err.decode("latin1"))

def sizes(g, n):
    S = set()
    for k in range(1, 21):
        for m in (1, 2, 9, 99, 999, 10, 100, 123, 995, 994, 1024):
            for e in (-1, 0, 1):
                S.add(m * 10 ** k + e)
    for k in range(65):
        for e in (-1, 0, 1, -(1 << k) // 25):
            S.add((1 << k) + e)
    S |= set(range(1100))
    for k in range(1, 7):
        for _ in range(n):
            t = g.choice(list(range(10, 100)) + [10 * i for i in range(10, 1000)])
            S.add(t * 1000 ** k // 10 + g.choice([-1, 0, 1]))
    for _ in range(6 * n):
        S.add(g.randrange(1 << g.randrange(1, 65)))
    return sorted(x for x in S if 0 <= x < 1 << 64)

def run(ctx):
    ctx.equiv(("nat", "sha"), ctx.t(2, 10))
    g = ctx.rng
    ns = sizes(g, ctx.t(250, 6000))
    slow = set(g.sample(ns, ctx.t(40, 400)))
    ctx.conform("S18", [dict(n=n, slow=int(n in slow)) for n in ns], size, what="sizes")
    ctx.conform("S18", [dict(n=n) for n in g.sample(ns, 500)], size, what="sizes, sanitized", variant="san")

    # ---- info: valid and invalid headers, read from anywhere ----
    qs = [some_q(g) for _ in range(ctx.t(150, 3000))] + [(l, r, p) for l in (1, 63, 57, 56, 58, 40) for r, p in ((1, 1), (2, 1), ((1 << 30) - 1, 1), (1, (1 << 30) - 1), (128, 1), (127, 3), (64, 2))]
    qs += [(l, g.choice([1, 3, 8, 1000, 1 << 20, (1 << 30) - 1]), 1) for l in range(1, 64)]
    heads = [box_for(*q)[:48] for q in qs + list(invalid(g))]
    bs = []
    for h in heads:
        rest = g.choice([g.randbytes(48), bytes(48), box_for(1, 1, 1)[48:96]])
        bs.append(h + rest + g.choice([b"", b"", g.randbytes(g.choice([1, 32, 40, 5000]))]))
    good = bs[0]
    for n in range(98):
        bs.append(good[:n])
    for v in list(range(8)) + [255, 128]:
        x = bytearray(good)
        x[6] = v
        bs += [bytes(x), bytes(x[:g.choice([7, 8, 40, 95])])]
    for i in range(7 * 8):
        x = bytearray(good)
        x[i // 8] ^= 1 << (i % 8)
        bs += [bytes(x), bytes(x[:g.choice([7, 8, 40, 95, 5, 6])])]
    bs += [b"", b"scrypt", b"\0" * 96, b"x" * 4000, b"scrypt\0" + b"\xff" * 89]
    cs = [dict(b=b.hex(), chunks=g.choice(["0", "1", "7", "96,1", "95,2", "6,1"]), unbuf=g.randrange(2)) for b in bs]
    ctx.conform("S18", cs, infolib, what="info, library")
    ctx.conform("S18", g.sample(cs, ctx.t(200, 1000)), infolib, what="info, sanitized", variant="san")
    ks = []
    OPT = [[], [], [], ["-v"], ["-f"], ["-M", "1"], ["-t", "0"], ["-m", "0.1"], ["--logN", "10", "-r", "1", "-p", "1"], ["--passphrase", "env:PW"], ["--passphrase", "file:/nonexistent"], ["--passphrase", "dev:tty-once"]]
    pool = g.sample(bs, min(len(bs), ctx.t(300, 1500)))
    for b in pool:
        ks.append(dict(b=b.hex(), how=g.choice(["file", "stdin"]), opts=g.choice(OPT), outarg=int(g.random() < .2)))
    for how in ("none", "dir", "notdir"):
        for o in OPT[:4]:
            ks.append(dict(b="", how=how, opts=o, outarg=g.randrange(2)))
    for n in (0, 1, 5, 6, 7, 8, 50, 95, 96, 97, 128):
        for x in (good, b"scrypt\1" + good[7:], b"Scrypt" + good[6:], box_for(0, 1, 1) + bytes(60)):
            ks.append(dict(b=x[:n].hex(), how="ioerr", opts=[], outarg=0))
    ctx.conform("S18", ks, info, what="info, command")
    # decryption that does not get so far
    bb = [b for b in (box_for(*q) for q in invalid(g))] + [box_for(3, 1, 1)[:n] for n in (0, 6, 7, 50, 95)] + [b"scrypt\1" + box_for(3, 1, 1)[7:]]
    x = bytearray(box_for(3, 1, 1))
    x[50] ^= 1
    bb.append(bytes(x))
    ctx.conform("S18", [dict(b=b.hex(), opts=g.choice([[], ["-f"]])) for b in bb], bad, what="dec -v, invalid")

    # ---- verbose encryption and decryption ----
    boxes = make_containers(ctx, [dict(pw=b"pw" if i % 3 else b"other", salt=g.randbytes(32), logN=1 + i % 4, r=1 + i % 3, p=1 + i % 5, data=g.randbytes(i)) for i in range(24)])
    cs = []
    def some_time(S, sp):
        t = Fraction(S) / sp
        return g.choice([float(t), float(t * 2), float(t / 2), math.nextafter(float(t), 0), 0.0, 300.0, 0.05, 0.25, 1e-9, 123456.75, 1e15, 2.0 ** 62, math.inf])
    for i in range(ctx.t(900, 8000)):
        op = g.choice(["dec", "dec", "enc", "enc"])
        expl = op == "dec" or g.random() < .5
        n, d = g.choice([1, 2, 8, 37, 100, 200]), g.choice([1, 1, 2, 3, 7, 100, 5000])
        c = dict(op=op, expl=int(expl), n=n, d=d, fake=1, goodpw=0, verbose=int(g.random() < .9), force=int(g.random() < .25), via=g.choice(["cli", "cli", "cli", "buf", "file", "prep"] if op == "dec" else ["cli", "cli", "buf", "file"]))
        if op == "dec":
            c["q"] = some_q(g)
            if g.random() < .3:
                j = g.randrange(len(boxes))
                c.update(q=(1 + j % 4, 1 + j % 3, 1 + j % 5), box=boxes[j].hex(), fake=0, goodpw=int(j % 3 != 0))
        else:
            c["q"] = (g.randrange(10, 41), g.randrange(1, 33), g.choice([1, 2, 5, 2048])) if expl else (0, 0, 0)
            c["goodpw"] = 1
        logN, r, p = c["q"]
        need, S = (128 * r << logN, 4 * r * p << logN) if r else (g.randrange(1 << 40), g.randrange(1 << 40) + 1)
        mem = min(1 << 60, g.choice([need, need - 1, need * 2, 1 << 30, 1 << 20, 0, g.randrange(1 << g.randrange(21, 59))]))
        tl = some_time(S, Fraction(512 * n, d))
        if not expl:
            tl = min(tl, 1e9)
            mem = min(mem, 1 << 40)
        if c["via"] == "cli":
            total = max(1, mem)
            c["lim"] = ["lim", "inf", "inf", "inf", total, 1, 4096, 1 << 49]
            args, frac, mm = [], 0.5 if op == "dec" else 0.125, 0
            if g.random() < .5:
                frac = g.choice([0.5, 0.25, 0.125])
                args += ["-m", repr(frac)]
            if g.random() < .5 and mem:
                mm = max(1, mem // 2)
                args += ["-M", str(mm)]
            args += ["-t", repr(tl)]
            if op == "enc" and expl:
                args += ["--logN", str(logN), "-r", str(r), "-p", str(p)]
            m = int(total * frac)
            m = min(m, mm) if mm else m
            c["args"] = args
        else:
            m = int(float(mem))
            c["lim"], c["maxmem"], c["frac"] = limits(g, m)
        c["mem"] = max(m, 1 << 20)
        c["time"] = repr(tl)
        cs.append(c)
    ctx.conform("S18", cs, verbose, what="verbose")
