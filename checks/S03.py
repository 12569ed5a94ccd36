"""S03: the encrypted format."""
import os
import fw, scr
from scr import H, p8, limbs, cli, Scratch
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "N up to 2^14, r up to 2^16; larger parameters with a stand-in for the key derivation (S01)"]

# parameters which do not fit into 8, 16, 24 or 31 bits, or whose products do not
BIGQ = [[10, 1, (1 << 30) - 1], [1, (1 << 30) - 1, 1], [63, (1 << 30) - 1, 1], [40, 1 << 14, 1 << 15], [32, (1 << 24) + 1, 63], [33, 255, 1 << 22], [31, (1 << 28) + 3, 3], [45, 32767, 32769], [20, 1, 1 << 24], [25, 1 << 29, 1],
        [57, 8, 1], [56, 1 << 23, 2], [17, 12345, 23456]]

def one(vh, c):
    if "cpu" in c and not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", *c["cpu"])
    rec = dict(pw=c["pw"], data=c["data"], want=c.get("want", []), guards=1, rep=[], kdf=[], observed=0, fake=c.get("fake", 0))
    via = c["via"]
    if via == "cli":
        with Scratch() as d:
            args = ["enc"] + c["opts"]
            env, files = {}, None
            pw = bytes.fromhex(c["pw"])
            data = bytes.fromhex(c["data"])
            m = c["method"]
            if m == "env":
                args += ["--passphrase", "env:PW"]
                env["PW"] = os.fsdecode(pw)
            elif m == "file":
                open(d + "/pw", "wb").write(pw + b"\n")
                args += ["--passphrase", "file:" + d + "/pw"]
            open(d + "/in", "wb").write(data)
            stdin = b""
            if m == "stdin":
                stdin = pw + b"\n"
                args += ["--passphrase", "dev:stdin-once"]
                args += [d + "/in"]
            elif c["input"] == "-":
                stdin = data
                args += ["-"]
            else:
                args += [d + "/in"]
            if c["output"] == "file":
                args += [d + "/out"]
                if c["seed"] % 3 == 0:
                    open(d + "/out", "wb").write(b"older and longer contents" * 20000)
            feed = None
            if c.get("feed") and stdin and m != "stdin":
                feed = [stdin[i:i + c["feed"]] for i in range(0, len(stdin), c["feed"])]
            r = cli(args, stdin=stdin, env=env, feed=feed)
            out = r.out
            if c["output"] == "file":
                rec["guards"] = int(r.out == b"")
                out = open(d + "/out", "rb").read() if os.path.exists(d + "/out") else b""
            rec.update(rc=r.rc, out=out.hex())
        return rec
    vh.call("kdf", 1, rec["fake"], 0, 0, 0)
    if c.get("clock"):
        vh.call("clock", *c["clock"])
        vh.call("kdf", 1, 0, 0, 0, 1)
    if via == "buf":
        r = vh.call("buf", 0, c["data"] or "-", c["pw"] or "-", *c["p8"])
        rec["guards"] = r["guards"]
    else:
        r = vh.call("file", 2, c["data"] or "-", c["chunks"], -1, -1, c["unbuf"], c["pw"] or "-", *c["p8"])
        rec["guards"] = int(r["fclose"] == 0)
    vh.call("clock")
    vh.call("kdf", 0, 0, 0, 0, 0)
    rec.update(rc=r["rc"], out=r["out"] if r["rc"] == 0 else "", rep=r["params"], observed=1,
               kdf=[dict(e, N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"])) for e in r["ev"] if e["e"] == "kdf"])
    return rec

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    cs = []
    CPUS = ([1, 1, 1, 1, 1], [0, 0, 0, 0, 0])
    def pw():
        return g.randbytes(g.choice([0, 1, 5, 8, 20, 63, 64, 65, 100, 300])).hex()
    def chunks():
        return g.choice(["0", "1", "7", "65536", "65535,1", "100,3,1000", "4096", "32", "31,33", "65537"])
    def params():
        return [g.choice([1, 1, 2, 3, 4, 5, 7]), g.choice([1, 1, 2, 3, 8, 9]), g.choice([1, 1, 2, 3])]
    def add(via, n, q=None, **k):
        q = q or params()
        cs.append(dict(via=via, data=g.randbytes(n).hex(), pw=k.pop("pw", None) or pw(), want=q, p8=p8(logN=q[0], r=q[1], p=q[2], **k),
                       chunks=chunks() , unbuf=g.randrange(4)))
    lens = list(range(0, 70)) + [95, 96, 97, 127, 128, 129, 160, 255, 256, 1000, 4095, 4096, 4097]
    big = [32767, 65504, 65535, 65536, 65537, 65568, 131071, 131072, 131073, 200000] + ctx.t([], [1 << 20, (1 << 20) + 77, 3000001])
    for n in lens:
        add("buf", n)
        add("file", n)
    for n in big:
        add("buf", n, [1, 1, 1])
        add("file", n, [1, 1, 1])
        add("file", n, [1, 1, 1])
    # parameters over their range, and unusual contents
    for q in ([1, 1, 1], [14, 1, 1], [10, 8, 1], [10, 32, 2], [2, 300, 1], [1, 1, 300], [1, 65536, 1], [1, 1, 65536], [1, 255, 256], [1, 256, 257], [2, 70000, 1], [1, 3, 70000]):
        add("buf", 40, list(q), force=1)
        add("file", 40, list(q), force=1)
    # ... and those whose keys cannot be derived here
    for q in [[n, 1, 1] for n in range(15, 64)] + BIGQ:
        for via in ("buf", "file"):
            add(via, g.choice([0, 1, 40, 100]), list(q), force=1, verbose=g.randrange(2))
            cs[-1]["fake"] = 1
    for n in range(ctx.t(40, 400)):
        add(g.choice(["buf", "file"]), g.choice([0, 1, 31, 32, 33, 500]), pw=(b"\0" * (n % 3) + g.randbytes(n) + b"\0" * (n % 2)).hex())
    for d in (b"\0" * 100, b"\xff" * 100, b"scrypt\0\x01" + b"x" * 100):
        add("buf", 0)
        cs[-1]["data"] = d.hex()
    # parameters chosen by the program: a clock and a memory budget are given
    for t in ("0", "1", "16", "256") + ctx.t((), ("1024",)):
        for mx in (1 << 20, 1 << 21, 1 << 22, (1 << 22) + 12345):
            cs.append(dict(via=g.choice(["buf", "file"]), data=g.randbytes(g.randrange(60)).hex(), pw=pw(), p8=p8(maxmem=mx, frac="0.5", time=t, logN=0, r=0, p=0),
                           chunks="0", unbuf=0, clock=[0, 1, 1, "m0", "m1000000000", "m1000000000", "m2000000000"]))
    for i, c in enumerate(cs):
        c["cpu"] = CPUS[i % 8 % 2]
    ctx.conform("S03", cs, one, nproc=8, what="library")
    # histories: encryptions one after another in one process are all right (nproc=8 above shares
    # processes); the command
    ks = []
    for i, n in enumerate([0, 1, 31, 32, 33, 127, 128, 1000, 65535, 65536, 65537, 131072, 131073, 300000] + ctx.t([], [1 << 20] + list(range(2, 30)))):
        for meth in ("env", "file", "stdin"):
            q = [g.choice([10, 10, 11]), g.choice([1, 2, 8]), g.choice([1, 2, 3])]
            opts = ["--logN", str(q[0]), "-r", str(q[1]), "-p", str(q[2])]
            if g.random() < .3:
                opts.append("-v")
            if g.random() < .3:
                opts.append("-f")
            ks.append(dict(via="cli", data=g.randbytes(n).hex(), pw=("pass %d \xe9 word" % g.randrange(99)).encode().hex() if g.random() < .7 else b"x".hex(), want=q,
                           opts=opts, method=meth, input=g.choice(["-", "file"]), output=g.choice(["-", "file"]), seed=g.randrange(6), feed=g.choice([None, 1000, 65536])))
    for i in range(2):   # default parameters
        ks.append(dict(via="cli", data=b"default".hex(), pw=b"pw".hex(), want=[], opts=["-t", "0.01", "-M", "1M"] if i else ["-M", "2M", "-t", "0.02", "-m", "0.1"], method="env",
                       input="file", output="file", seed=1))
    ctx.conform("S03", ks, one, nproc=8, what="command")
    # under the sanitizers
    ss = [c for c in cs if len(c["data"]) < 300000 and c["p8"][7] == "0"][:ctx.t(60, 400)] + [c for c in cs if c["via"] == "file" and 60000 < len(c["data"]) // 2 < 132000]
    ss = [dict(c) for c in ss]
    ctx.conform("S03", ss, one, nproc=8, what="sanitized", variant="san")
    scr.hugeconform(ctx, "seal")
