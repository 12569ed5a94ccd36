"""S24: outcomes of commands when things go wrong."""
import os, re
import fw, scr, S16
from scr import limbs, cli, Scratch
from S09 import clock, box_for
from S16 import VERSION, line, plain
ASSUMPTIONS = ["standard error can be written; standard input is open",
               "what the C library allocates for itself can be had",
               "arguments whose value decides are exactly representable; large keys are not derived in earnest"]
PW, BAD, OTHER = b"correct-horse-battery", b"swordfish-wrong-1", b"Tr0ub4dor&3-else"

def world(g, fake, box):
    return dict(stdin=g.choice([PW + b"\n" + PW + b"\nthe data", PW + b"\n" + PW + b"\n", PW + b"\n" + box, PW + b"\n" + OTHER + b"\n" + PW + b"\n" + PW + b"\n", b"", BAD + b"\n", BAD, box]).hex(),
                files=[("in", b"contents of the input"), ("box", box), ("old", b"old contents, rather longer than others" * 9), ("pwf", g.choice([PW + b"\n", PW, BAD + b"\n", PW + b"\n" + OTHER + b"\n", b"z" * 2040 + PW + b"\n"])), ("bad", box[:-1] + bytes([box[-1] ^ 1])),
                       ("hdr", box[:90]), ("ver", box[:6] + b"\1" + box[7:]), ("sig", box[:70] + bytes([box[70] ^ 1]) + box[71:]), ("zero", b"")],
                vars=[("PW", PW), ("BAD", BAD), ("NIL", b"")], total=1 << g.randrange(20, 40), sn=g.choice([1, 2, 8, 1024, 7, 300]), sd=g.choice([1, 1, 2]), fake=fake, dirs=["dir"],
                fail=[], rdin="", rdat=-1, wrto="", wrat=-1, wrclose=0, sin="ok", sout="ok", fa=0, ff=0)

def command(vh, c):
    files = dict(c["files"])
    argv = [os.fsdecode(bytes.fromhex(w)) for w in c["argv"]]
    with Scratch() as d:
        for n, b in files.items():
            open(d + "/" + n, "wb").write(b)
        for n in c["dirs"]:
            os.mkdir(d + "/" + n)
        lim = ["lim", "inf", "inf", "inf", c["total"], 1, 4096, c["total"] >> 12]
        if "limit" in c["fail"]:
            lim[c.get("lf", 1)] = "E5"
        clk = clock(c["sn"], c["sd"])
        if "clock" in c["fail"]:
            clk = ["clock", 0, "E5", "E5", "M5", "M5", "M5"] if c.get("cf") else ["clock", 0, 1, 1, "M5", "M5", "M5"]
        cmds = [lim, clk, ["kdf", 1, c["fake"], int("kdf" in c["fail"]), 0, 1], ["trk", 1, c["fa"], c["ff"], 0]]
        if "entropy" in c["fail"]:
            cmds.append(["urandom"] + c["rnd"])
        if c["rdin"] or c["wrto"]:
            cmds.append(["io", c["rdin"] or d + "/none", c["rdat"], c["wrto"] or d + "/none", c["wrat"], c["wrclose"]])
        kw = {}
        if c["sin"] == "dir":
            kw["stdin"] = os.open(d, os.O_RDONLY)
        else:
            kw["stdin"] = bytes.fromhex(c["stdin"])
        if c["sout"] == "full":
            kw["stdout"] = os.open("/dev/full", os.O_WRONLY)
        elif c["sout"] == "closed":
            kw["stdout"], kw["closed"] = os.open("/dev/null", os.O_WRONLY), (1,)
        r = cli(argv, env={k: os.fsdecode(v) for k, v in c["vars"]}, cwd=d, cmds=cmds, **kw)
        for k in ("stdin", "stdout"):
            if isinstance(kw.get(k), int):
                os.close(kw[k])
        now = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d) if n not in c["dirs"]}
    if r.rep is None:
        return dict(crash="%s %r" % (r.rc, r.err[-500:]))
    changed = [dict(name=os.fsencode(n).hex(), b=b.hex()) for n, b in sorted(now.items()) if files.get(n) != b]
    changed += [dict(name=n.encode().hex(), b="") for n in files if n not in now]
    kdf = [dict(pw=e["pw"], salt=e["salt"], N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"])) for e in r.ev or [] if e["e"] == "kdf"]
    pair = lambda x: [dict(name=n.encode().hex(), b=b.hex()) for n, b in x]
    return dict(argv=c["argv"], stdin=c["stdin"], files=pair(c["files"]), vars=pair(c["vars"]), dirs=[n.encode().hex() for n in c["dirs"]], total=limbs(c["total"]), sn=limbs(512 * c["sn"]), sd=limbs(c["sd"]), fake=c["fake"], fail=c["fail"],
                rdin=c["rdin"].encode().hex(), rdat=c["rdat"], wrto=c["wrto"].encode().hex(), wrat=c["wrat"], wrclose=c["wrclose"], sin=c["sin"], sout=c["sout"], oom=r.rep["allocfails"],
                version=VERSION.hex(), rc=r.rc, out=r.out.hex(), err=r.err.decode("latin1"), kdf=kdf, changed=changed, secrets=[PW.decode(), BAD.decode(), OTHER.decode()])

def good(g):
    """A command line that makes sense, and whose outcome depends on what happens."""
    op = g.choice(["enc", "enc", "dec", "dec", "dec", "info"])
    o = []
    if op == "enc" and g.random() < .5:
        o += ["--logN", g.choice(["10", "11"]), "-r", g.choice(["1", "2"]), "-p", g.choice(["1", "2"])]
    o += g.choice([["-f"], ["-f"], [], [], ["-t", "64"], ["-M", "2MiB", "-m", "0.5"]])
    if g.random() < .3:
        o += ["-v"]
    o += g.choice([["--passphrase", m] for m in ("env:PW", "env:PW", "env:PW", "file:pwf", "file:pwf", "dev:stdin-once", "dev:tty-stdin", "env:BAD", "env:NONE", "file:none", "file:dir", "dev:tty-once")] + [["-P"], []])
    i = {"enc": ["in", "in", "in", "-", "zero", "dir", "none"], "dec": ["box", "box", "box", "box", "box", "bad", "hdr", "ver", "sig", "in", "zero", "-", "dir", "none"], "info": ["box", "box", "hdr", "ver", "bad", "zero", "-", "dir", "none"]}[op]
    w = [op] + o + [g.choice(i)]
    if g.random() < .65:
        w.append(g.choice(["new", "new", "old", "old", "old", "nodir/x", "dir", "zero"]))
    return w

def trouble(g, c, w):
    """Something goes wrong, perhaps."""
    i = [x for x in w if x in ("in", "box", "bad", "hdr", "ver", "sig", "zero")][:1]
    x = g.choice(["", "limit", "clock", "entropy", "kdf", "read", "read", "write", "write", "close", "alloc", "alloc", "alloc", "sin", "full", "closed", "pwread"])
    if x in ("limit", "clock", "entropy", "kdf"):
        c["fail"] = [x]
        c["lf"], c["cf"], c["rnd"] = g.choice([1, 4]), g.randrange(2), g.choice([["o5"] * 5, ["e5"] * 5, ["z"] * 5, ["d" + "11" * 20, "e5", "e5", "e5"]])
        if g.random() < .2:
            c["fail"] = sorted({x, g.choice(["limit", "clock", "kdf"])})
    elif x == "read" and i:
        n = len(dict(c["files"])[i[0]])
        c["rdin"], c["rdat"] = i[0], g.choice([0, 1, 6, 7, 8, 50, 95, 96, 97, n, n - 1, n - 32, n - 33, g.randrange(n + 1)])
        c["rdat"] = max(0, min(n, c["rdat"]))
    elif x == "pwread":
        n = len(dict(c["files"])["pwf"])
        c["rdin"], c["rdat"] = "pwf", g.choice([0, 1, 5, n - 1, n])
    elif x in ("write", "close") and w[-1] in ("new", "old", "zero"):
        c["wrto"] = w[-1]
        if x == "write":
            c["wrat"] = g.choice([0, 1, 5, 6, 12, 13, 14, 20, 21, 22, 95, 96, 97, 100, 120, 128, 140, 148, 149, 150])
        if x == "close" or g.random() < .2:
            c["wrclose"] = 1
    elif x == "alloc":
        if g.random() < .8:
            c["fa"] = g.randrange(1, 9)
        else:
            c["ff"] = g.randrange(1, 7)
    elif x == "sin":
        c["sin"] = "dir"
    elif x in ("full", "closed"):
        c["sout"] = x
    return c

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    vh = fw.VH("plain")
    vh.call("kdf", 0, 0, 0, 0, 0)
    real = bytes.fromhex(vh.call("buf", 0, b"the plaintext".hex(), PW.hex(), *scr.p8(logN=2, r=1, p=1, force=1))["out"])
    vh.call("kdf", 0, 1, 0, 0, 0)
    fakes = [bytes.fromhex(vh.call("buf", 0, b"the plaintext".hex(), PW.hex(), *scr.p8(logN=n, r=r, p=p, force=1))["out"]) for n, r, p in ((10, 1, 1), (14, 8, 1), (20, 8, 1), (31, 8, 4), (17, 8, 3), (10, 1, 1))]
    vh.close()
    cs = []
    def add(w, tr=True):
        if not plain([x for x in w if x != "nodir/x" and not x.startswith("file:")]) or len(set(w[-2:])) < len(w[-2:]):
            return
        fake = 1 if "--logN" not in w and w[0] == "enc" or g.random() < .7 else 0
        c = dict(world(g, fake, g.choice(fakes) if fake else real), argv=[x.encode().hex() for x in w])
        cs.append(trouble(g, c, w) if tr else c)
    for _ in range(ctx.t(1800, 30000)):
        add(good(g))
    for _ in range(ctx.t(150, 4000)):
        w = line(g)
        # (what is read and written is not the same)
        if w[-1:] != ["zero"] and "--logN" not in " ".join(w):
            add(w)
    # each allocation of some commands
    for _ in range(ctx.t(12, 60)):
        w = good(g)
        c0 = dict(world(g, 1, g.choice(fakes)), argv=[x.encode().hex() for x in w])
        if len(set(w[-2:])) == len(w[-2:]):
            for k in range(1, 10):
                cs.append(dict(c0, fa=k))
    for so in ("ok", "full", "closed"):
        for w in (["--version"], ["enc"], [], ["info", "box"], ["dec", "-f", "--passphrase", "env:PW", "box"], ["enc", "-f", "--passphrase", "env:PW", "in"], ["dec", "-f", "--passphrase", "env:PW", "box", "new"]):
            cs.append(dict(world(g, 1, fakes[0]), argv=[x.encode().hex() for x in w], sout=so))
    ctx.conform("S24", cs, command, make=lambda: None, what="commands")
