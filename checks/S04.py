"""S04: decrypting valid containers."""
import os
import fw, scr
from S03 import BIGQ
from scr import H, p8, limbs, cli, Scratch, make_containers
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)"]
CPUS = ([1, 1, 1, 1, 1], [0, 0, 0, 0, 0])

def dec(vh, c, box, kdf=None):
    """-> rc, out, outlen, params, guards; kdf: keys derived are added"""
    def saw(r):
        if kdf is not None:
            kdf.extend(e for e in r["ev"] if e["e"] == "kdf")
    via = c["via"]
    pw = c["pw"] or "-"
    q = p8(force=c.get("force", 0), verbose=c.get("verbose", 0), time="300", maxmem=0)
    if via == "buf":
        r = vh.call("buf", 1, box or "-", pw, *q)
        saw(r)
        return r["rc"], r["out"], r["outlen"], r["params"], r["guards"]
    if via == "file":
        r = vh.call("file", 3, box or "-", c["chunks"], -1, -1, c["unbuf"], pw, *q)
        saw(r)
        return r["rc"], r["out"], r["outlen"], r["params"], int(r["fclose"] == 0 and r["consumed"] == len(box) // 2)
    if via == "prep":
        k = c["slot"]
        r = vh.call("prep", k, box or "-", c["chunks"], -1, c["unbuf"], pw, *q)
        saw(r)
        if r["rc"]:
            return r["rc"], "", 0, [], 1
        r2 = vh.call("copy", k, -1, c["unbuf"])
        saw(r2)
        r3 = vh.call("dfree", k)
        return r2["rc"], r2["out"], r2["outlen"], r["params"], int(r2["fclose"] == 0 and r3["consumed"] == len(box) // 2)
    if via == "cli":
        with Scratch() as d:
            data = bytes.fromhex(box)
            args = ["dec"] + c["opts"]
            env = {}
            stdin = b""
            m = c["method"]
            if m == "env":
                args += ["--passphrase", "env:PW"]
                env["PW"] = os.fsdecode(bytes.fromhex(c["pw"]))
            elif m == "file":
                open(d + "/pw", "wb").write(bytes.fromhex(c["pw"]) + b"\n")
                args += ["--passphrase", "file:" + d + "/pw"]
            else:
                stdin = bytes.fromhex(c["pw"]) + b"\r\n"
                args += ["--passphrase", "dev:stdin-once"]
            open(d + "/in", "wb").write(data)
            feed = None
            if c["input"] == "-" and m != "stdin":
                stdin = data
                args += ["-"]
                if c["feed"]:
                    feed = [x for i in range(0, len(data), c["feed"]) for x in (data[i:i + c["feed"]], .002)]
            else:
                args += [d + "/in"]
            if c["output"] == "file":
                args += [d + "/out"]
                if c["old"]:
                    open(d + "/out", "wb").write(b"older and longer contents" * 20000)
            r = cli(args, stdin=stdin, env=env, feed=feed)
            out, ok = r.out, 1
            if c["output"] == "file":
                ok = int(r.out == b"")
                out = open(d + "/out", "rb").read() if os.path.exists(d + "/out") else b"no output"
            return r.rc, out.hex(), len(out), [], ok

def one(vh, c):
    if "cpu" in c and not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", *c["cpu"])
    box = c.get("box")
    if box is None:
        q = p8(logN=c["q"][0], r=c["q"][1], p=c["q"][2], force=1)
        if c["enc"] == "buf":
            box = vh.call("buf", 0, c["data"] or "-", c["pw"] or "-", *q)["out"]
        else:
            box = vh.call("file", 2, c["data"] or "-", c["encchunks"], -1, -1, 0, c["pw"] or "-", *q)["out"]
    via, kdf = c["via"], []
    if via != "cli":
        vh.call("kdf", 1, c.get("fake", 0), 0, 0, 0)
    rc, out, n, rep, ok = dec(vh, c, box, kdf)
    if via != "cli":
        vh.call("kdf", 0, 0, 0, 0, 0)
    return dict(fake=c.get("fake", 0), observed=int(via != "cli"), kdf=[dict(N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"]), salt=e["salt"]) for e in kdf], box=box, pw=c["pw"], data=c["data"], rc=rc, out=out, outlen=n, rep=rep, guards=ok)

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    def chunks():
        return g.choice(["0", "1", "7", "32", "65568", "65536,32", "65535,1", "100,3,1000", "4096", "31,33", "65537", "128", "96,1", "95,2,32", "65567"])
    specs, how = [], []
    def add(n, q, via, **k):
        specs.append(dict(pw=k.pop("pw", None) if "pw" in k else g.randbytes(g.choice([0, 1, 8, 30, 64, 65, 200])), salt=k.pop("salt", None) or g.randbytes(32), logN=q[0], r=q[1], p=q[2], data=k.pop("data", None) or g.randbytes(n), fake=k.get("fake", 0)))
        how.append(dict(via=via, chunks=k.pop("chunks", None) or chunks(), unbuf=g.randrange(4), force=k.pop("force", 1), slot=g.randrange(4), **k))
    def anyq():
        return [g.choice([1, 1, 2, 5]), g.choice([1, 2, 8]), g.choice([1, 1, 3])]
    VIA = ("buf", "file", "prep")
    for n in list(range(0, 100)) + [127, 128, 129, 255, 1000, 4096]:
        add(n, anyq(), VIA[n % 3])
    for n in (0, 1, 31, 32, 33, 64, 65):
        for via in VIA:
            for ch in ("0", "1", "32", "96,1", "31,33"):
                add(n, [1, 1, 1], via, chunks=ch)
    edge = [65503, 65504, 65505, 65535, 65536, 65537, 65567, 65568, 65569, 131040, 131071, 131072, 131073, 131104, 196608, 250000]
    for n in edge:
        for via in VIA:
            add(n, [1, 1, 1], via, pw=b"same", salt=b"s" * 32)
        add(n, [1, 1, 1], "file", chunks="0", pw=b"same", salt=b"s" * 32)
        add(n, [1, 1, 1], "file", chunks=g.choice(["65536", "65568", "1000", "65535,1", "131"]), pw=b"same", salt=b"s" * 32)
    if ctx.thorough:
        for n in (1 << 20, 3 << 20, (1 << 22) + 1):
            for via in VIA:
                add(n, [1, 1, 1], via, pw=b"same", salt=b"s" * 32)
    # headers of other implementations: any parameters and salts
    for q in ([14, 1, 1], [13, 8, 1], [10, 32, 2], [2, 300, 1], [1, 1, 300], [1, 65536, 1], [1, 1, 65536], [1, 255, 256], [1, 256, 257], [2, 70000, 1], [1, 3, 70000]):
        for via in VIA:
            add(40, q, via, force=g.randrange(2))
    for q in [[n, 1, 1] for n in range(15, 64)] + BIGQ:
        for via in VIA if q in BIGQ else g.sample(VIA, 1):
            add(40, q, via, force=1, fake=1)
    for salt in (b"\0" * 32, b"\xff" * 32, b"scrypt\0\1" * 4):
        add(20, [1, 1, 1], g.choice(VIA), salt=salt, force=0)
    # data that looks like a container, or like a signature
    for d in (b"\0" * 500, b"\xff" * 70000, b"scrypt\0\x01" + b"\0" * 200):
        for via in VIA:
            add(0, [1, 1, 1], via, data=d)
    boxes = make_containers(ctx, specs)
    cs = []
    for i, (s, h, b) in enumerate(zip(specs, how, boxes)):
        cs.append(dict(h, box=b.hex(), pw=s["pw"].hex(), data=s["data"].hex(), cpu=CPUS[i % 8 % 2]))
    # containers the code made itself
    for i in range(ctx.t(60, 600)):
        n = g.choice([0, 1, 5, 31, 32, 33, 100, 1000, 65536, 65537, 70000])
        cs.append(dict(via=VIA[i % 3], enc=g.choice(["buf", "file"]), encchunks=chunks(), chunks=chunks(), unbuf=g.randrange(4), force=1, slot=g.randrange(4), q=anyq(),
                       pw=g.randbytes(g.randrange(20)).hex(), data=g.randbytes(n).hex(), cpu=CPUS[len(cs) % 8 % 2], verbose=g.randrange(2)))
    ctx.conform("S04", cs, one, nproc=8, what="library")
    # the command
    specs, how = [], []
    for n in [0, 1, 31, 32, 33, 127, 1000, 65503, 65504, 65536, 65537, 131072, 131073, 300000] + ctx.t([], [1 << 20] + list(range(2, 30))):
        for meth in ("env", "file", "stdin"):
            q = [g.choice([1, 4, 10, 11]), g.choice([1, 2, 8, 33]), g.choice([1, 2, 3])]
            opts = g.choice([[], ["-v"], ["-f"], ["-t", "100"], ["-m", "0.5", "-t", "60"], ["-M", "1G"]])
            specs.append(dict(pw=("pass %d \xe9 word" % g.randrange(99)).encode() if g.random() < .7 else b"x", salt=g.randbytes(32), logN=q[0], r=q[1], p=q[2], data=g.randbytes(n)))
            how.append(dict(via="cli", opts=opts, method=meth, input=g.choice(["-", "file"]), output=g.choice(["-", "file"]), old=g.randrange(2),
                            feed=g.choice([None, 65536, 5000] if n > 2000 else [None, 1, 33, 100])))
    ks = [dict(h, box=b.hex(), pw=s["pw"].hex(), data=s["data"].hex()) for s, h, b in zip(specs, how, make_containers(ctx, specs))]
    ctx.conform("S04", ks, one, nproc=8, what="command")
    ss = [dict(c) for c in cs if c["force"] and len(c.get("box", c["data"])) < 300000][::ctx.t(6, 1)]
    ctx.conform("S04", ss, one, nproc=8, what="sanitized", variant="san")
    scr.hugeconform(ctx, "open")
