"""S16: command lines."""
import itertools, os, re
import fw, scr, vbuild
from scr import limbs, cli, Scratch
from S09 import clock, box_for
ASSUMPTIONS = ["arguments whose value decides are exactly representable; parameters are not derived in earnest when large",
               "no file is both input and output; names are plain names of the current directory"]

# ---- the parser ----
def opts(vh, c):
    r = vh.call("gopt", c["handled"], b"prog".hex(), *[w or "-" for w in c["argv"]])
    ev = []
    for e in r["ev"]:
        if e["k"] == "arg":
            ev[-1]["arg"] = e["o"]
        else:
            ev.append(dict(k={"default": "unknown", "opt": "optarg" if e["arg"] else "opt"}.get(e["k"], e["k"]), name=e["o"], arg=""))
    return dict(k="opts", handled=c["handled"], argv=c["argv"], ev=ev, next=r["optind"])

TOK = ["-", "--", "-a", "-b", "-ab", "-ba", "-x", "-xv", "-ax", "-axv", "-x=v", "-x-", "-a-", "-az", "-z", "-za", "-y", "--foo", "--fo", "--f", "--fooo", "--foo=", "--foo=v", "--fo=v", "--bar", "--bar=", "--bar=v",
       "--bar=v=w", "--barn", "--barn=v", "--ba", "--ba=v", "--barnx=v", "---", "--=", "--=v", "-=", "op", "", "a=b", "-x--", "-yx", "-xy", "-abx", "-f", "-fo", "-bar"]

def words(g, n):
    """Longer argument vectors, and odd words."""
    out = []
    for _ in range(n):
        v = [g.choice(TOK) for _ in range(g.choice([3, 3, 4, 5, 8, 12]))]
        for i in range(len(v)):
            if g.random() < .1:
                s = v[i]
                k = g.randrange(len(s) + 1)
                v[i] = g.choice([s[:k] + s[k + 1:], s[:k] + g.choice("-=abxyzf o") + s[k:], s[:k] + g.choice(TOK), s + "x" * 300, s[::-1]])
        if g.random() < .2:
            v = [w for w in v if w[:1] == "-"]
        out.append(v)
    return out

# ---- the command ----
SMALL = None
def world(g, fake, box):
    return dict(stdin=g.choice([b"pw\npw\nthe data", b"pw\n" + box, b"pw\nbad\npw\npw\n", b"", b"x\n", box]).hex(),
                files=[("in", b"contents"), ("box", box), ("old", b"old contents, rather longer than others"), ("pwf", g.choice([b"pw\n", b"pw", b"wrong\n", b"pw\nmore\n"])), ("bad", box[:-1] + bytes([box[-1] ^ 1])), ("hdr", box[:90]), ("zero", b"")],
                vars=[("PW", b"pw"), ("BAD", b"wrong"), ("NIL", b"")], total=1 << g.randrange(20, 40), sn=g.choice([1, 2, 8, 1024, 7, 300]), sd=g.choice([1, 1, 2]), fake=fake)

def command(vh, c):
    files = dict(c["files"])
    with Scratch() as d:
        for n, b in files.items():
            open(d + "/" + n, "wb").write(b)
        cmds = [["lim", "inf", "inf", "inf", c["total"], 1, 4096, c["total"] >> 12], clock(c["sn"], c["sd"]), ["kdf", 1, c["fake"], 0, 0, 1]]
        r = cli([os.fsdecode(bytes.fromhex(w)) for w in c["argv"]], stdin=bytes.fromhex(c["stdin"]), env={k: os.fsdecode(v) for k, v in c["vars"]}, cwd=d, cmds=cmds, argv0="scrypt" if c.get("argv0") is None else c["argv0"])
        now = {n: open(os.path.join(d, n), "rb").read() for n in os.listdir(d)}
    changed = [dict(name=os.fsencode(n).hex(), b=b.hex()) for n, b in sorted(now.items()) if files.get(n) != b]
    changed += [dict(name=n.encode().hex(), b="") for n in files if n not in now]
    kdf = [dict(pw=e["pw"], salt=e["salt"], N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"])) for e in r.ev or [] if e["e"] == "kdf"]
    pair = lambda x: [dict(name=n.encode().hex(), b=b.hex()) for n, b in x]
    return dict(k="cli", argv=c["argv"], stdin=c["stdin"], files=pair(c["files"]), vars=pair(c["vars"]), total=limbs(c["total"]), sn=limbs(512 * c["sn"]), sd=limbs(c["sd"]), fake=c["fake"], fail=[],
                version=VERSION.hex(), rc=r.rc, out=r.out.hex(), err=r.err.decode("latin1"), kdf=kdf, changed=changed)

def version():
    d = os.path.join(vbuild.VERIF, "harness", "config", "config.h")
    return b"scrypt " + re.search(r'#define PACKAGE_VERSION "(.*)"', open(d).read())[1].encode() + b"\n"
VERSION = version()

# words of every kind after the operation
CTOK = ["-f", "-v", "-P", "-fv", "-fP", "-vf", "-r", "1", "-r1", "-p1", "-p", "--logN", "10", "--logN=10", "--logN=", "--log", "-M", "-M1M", "-M=1", "-m", "0.5", "-m0.25", "-t1", "-t", "-tinf", "-tnan", "--passphrase", "--passphrase=env:PW",
        "env:PW", "file:pwf", "--passphrase=dev:stdin-once", "--passphrase=dev:stdin", "--", "-", "in", "box", "old", "new", "--version", "-h", "--help", "-x", "--force", "", "--passphrase=", "-m0", "-fr1", "-logN"]
VAL = {"--logN": ["10", "11", "9", "41", "40", "0x0b", "10x", "", "-1", "013", "18446744073709551626", "12"], "-r": ["1", "2", "8", "32", "33", "0", "x", "+3", " 4"], "-p": ["1", "2", "2048", "2049", "0", "1 ", "3"],
       "-M": ["1M", "0", "1500000", "2 MiB", "1MM", "k", "", "16777216B", "18446744073709551616", "20 kB", "5EB"], "-m": ["0.5", "0.25", "0.125", "0", "0.6", "1", "-0.1", "nan", "5e-1", "0.0625", "", "x", "0.50000001", "inf"],
       "-t": ["1", "0", "0.5", "inf", "300", "-1", "nan", "1e3", "", "1s", "0x2", "4096"], "--passphrase": ["env:PW", "env:BAD", "env:NIL", "env:NONE", "env:", "file:pwf", "file:none", "file:zero", "file:", "dev:tty-stdin", "dev:stdin-once", "dev:tty-once", "dev:tty", "dev:",
       "ENV:PW", "env", "pw", "", "dev:tty-stdinx", "dev:stdin-onc", " env:PW"]}
GOOD = {"--logN": ["10", "11"], "-r": ["1", "2"], "-p": ["1", "2"], "-M": ["1M", "2MiB", "1500000"], "-m": ["0.5", "0.25"], "-t": ["1", "64", "inf"], "--passphrase": ["env:PW", "env:PW", "file:pwf", "dev:tty-stdin", "dev:stdin-once"]}
def line(g):
    """An argument vector that mostly makes sense."""
    op = g.choice(["enc", "enc", "dec", "dec", "info"])
    o = []
    def opt(n, v):
        o.append(g.choice([[n, v], [n + v]]) if n[1] != "-" else g.choice([[n, v], [n + "=" + v]]))
    bad = g.random() < .35
    V = VAL if bad else GOOD
    if g.random() < (.6 if op == "enc" else .1):
        for n in ("--logN", "-r", "-p"):
            if g.random() < .95:
                opt(n, g.choice(V[n]))
    for n, q in (("-M", .15), ("-m", .15), ("-t", .2), ("--passphrase", .8)):
        while g.random() < q:
            opt(n, g.choice(V[n] if g.random() < .5 else GOOD[n]))
            q *= .2
    for n, q in (("-f", .3), ("-v", .3), ("-P", .1)):
        while g.random() < q:
            o.append([n])
            q *= .3
    g.shuffle(o)
    # group flags
    if g.random() < .3:
        out = []
        for x in o:
            if out and len(out[-1]) == 1 and re.fullmatch("-[fvP]+", out[-1][0]) and re.match("-[a-zA-Z]", x[0]):
                out[-1] = [out[-1][0] + x[0][1:]] + x[1:]
            else:
                out.append(x)
        o = out
    w = [y for x in o for y in x]
    if g.random() < .15:
        w.append("--")
    w.append(g.choice({"enc": ["in", "in", "in", "zero", "-", "none", "box"], "dec": ["box", "box", "box", "bad", "hdr", "in", "zero", "-", "none"], "info": ["box", "box", "hdr", "in", "zero", "-", "none", "bad"]}[op]))
    if g.random() < .5:
        w.append(g.choice(["new", "new", "old", "old", "nodir/x", "-", "-v", ""]))
    if g.random() < .07:
        w.append(g.choice(["more", "-f", "--"]))
    w = [op] + w
    # odd ones
    if g.random() < .15:
        k = g.randrange(len(w))
        s = w[k]
        i = g.randrange(len(s) + 1)
        w = g.choice([w[:k] + w[k + 1:], w[:k] + [g.choice(CTOK)] + w[k:], w[:k] + [s[:i] + s[i + 1:]] + w[k + 1:], w[:k] + [s, s] + w[k + 1:], w[:k] + [s[:i], s[i:]] + w[k + 1:], w[:k + 1], w[:k] + [s + "".join(w[k + 1:k + 2])] + w[k + 2:]])
    return w

def plain(w):
    """Not a line this check leaves alone."""
    for s in w:
        if s in (".", "..") or "/" in s and s != "nodir/x" or any(ord(x) < 32 or ord(x) > 126 for x in s) or "0x" in s.lower() and "." in s:
            return False
        # a fraction or time that is not a dyadic rational
        t = re.sub("^-[fvP]*[mt]", "", s)
        m = re.fullmatch(r"\s*[+-]?(\d*)\.(\d+)", t)
        if m and not re.fullmatch("0*|0*5|0*25|0*75|125|0625|6|50000001|1", m[2].rstrip("0") or "0"):
            return False
    # input and output must differ
    ops = [s for s in w if s in ("in", "box", "old", "pwf", "bad", "hdr", "zero", "-")]
    return len(w) < 2 or len(set(w[-2:])) == len(w[-2:]) or w[-1] not in ops

def run(ctx):
    g = ctx.rng
    ctx.design("GetoptDesign")
    hx = lambda v: [w.encode().hex() for w in v]
    vs = [[]] + [[a] for a in TOK] + [list(v) for v in itertools.product(TOK, repeat=2)]
    if ctx.thorough:
        vs += [list(v) for v in itertools.product(TOK[:36], repeat=3)]
    vs += words(g, ctx.t(3000, 60000))
    ctx.conform("S16", [dict(handled=h, argv=hx(v)) for v in vs for h in (0, 1)], opts, what="options found")
    ctx.conform("S16", [dict(handled=h, argv=hx(v)) for v in g.sample(vs, 400) for h in (0, 1)], opts, what="options found, sanitized", variant="san")
    # the command: real boxes, small
    vh = fw.VH("plain")
    vh.call("kdf", 0, 0, 0, 0, 0)
    real = bytes.fromhex(vh.call("buf", 0, b"the plaintext".hex(), b"pw".hex(), *scr.p8(logN=2, r=1, p=1, force=1))["out"])
    cs = []
    def add(w, box=None):
        if w[:1] == ["enc"] and not {"--logN", "--logN=10", "--logN=11"} & set(w) or {"2048", "-p2048"} & set(w):
            box = box or real     # (parameters may be large)
        if not plain(w):
            ctx.count("left alone")
            return
        fake = 0 if box is None else 1
        cs.append(dict(world(g, fake, box or real), argv=hx(w)))
    for w in [[], [""], ["--version"], ["--version", "x"], ["-v"], ["ENC"], ["enc "], ["enca", "in"], ["en", "in"], ["-f", "enc", "in"], ["--version", "enc", "in"], ["version"], ["-version"], ["--versio"], ["--version="], ["--", "enc", "in"]]:
        add(w)
    short = [[o] + list(v) for o in ("enc", "dec", "info") for n in (0, 1) for v in itertools.product(CTOK, repeat=n)]
    pairs = [[o] + list(v) for o in ("enc", "dec", "info") for v in itertools.product(CTOK, repeat=2)]
    if not ctx.thorough:
        pairs = g.sample(pairs, 600)
    for w in short + pairs:
        add(w, box_for(3, 1, 1))
    vh.call("kdf", 0, 1, 0, 0, 0)
    fakes = [bytes.fromhex(vh.call("buf", 0, b"the plaintext".hex(), b"pw".hex(), *scr.p8(logN=n, r=r, p=p, force=1))["out"]) for n, r, p in ((10, 1, 1), (14, 8, 1), (20, 8, 1), (31, 8, 4), (63, 1, 1), (10, 1 << 14, 1 << 15), (17, 8, 3))]
    vh.close()
    bigs = fakes + fakes + [box_for(*q) for q in ((1, 1, 1), (10, 1, 1), (14, 8, 1), (20, 8, 1), (12, 1, 100), (31, 8, 4), (63, 1, 1), (0, 1, 1), (10, 0, 1), (10, 1 << 15, 1 << 15))]
    # an option given again: flags do not cancel out; of values the last one counts
    again = [["-f", "-f"], ["-ff"], ["-f", "-v", "-f"], ["-fvf"], ["-fff"], ["-vff"], ["-f"], [], ["-v", "-v"], ["-vv"], ["-vvv"], ["-v"], ["-P", "-P"], ["-fP", "-Pf"], ["-f", "-ff", "-f"]]
    rep = [[a, b] for n, ws in (("-t", ["1", "inf", "0"]), ("-M", ["1M", "1G", "0"]), ("-m", ["0.5", "0.0625", "0"]), ("--passphrase=", ["env:PW", "env:BAD", "file:pwf", "env:NONE"])) for a in [n + x for x in ws] for b in [n + x for x in ws]]
    enc = [[a, b, "-r1", "-p1"] for a in ("--logN=10", "--logN=11") for b in ("--logN=10", "--logN=11")] + [["--logN=10", "-r" + a, "-r" + b, "-p1"] for a in "12" for b in "12"] + [["--logN=10", "-r1", "-p" + a, "-p" + b] for a in "12" for b in "12"]
    for b in (fakes[3], fakes[4], g.choice(bigs), None):
        for o in again + (rep if ctx.thorough or b is fakes[3] else g.sample(rep, 12)):
            add(["dec"] + o + ["--passphrase=env:PW"] * (not o or "pass" not in o[0]) + ["box", "new"], b)
    for o in again + rep + enc:
        add(["enc"] + o + ([] if o in enc else ["--logN=10", "-r1", "-p1"]) + ["--passphrase=env:PW"] * (not o or "pass" not in o[0]) + ["in", "new"])
        add(["enc", "--logN=40", "-r8", "-p1"] + ([] if o in enc else o) + ["--passphrase=env:PW"] * (not o or "pass" not in o[0]) + ["in", "new"])
    for _ in range(ctx.t(900, 12000)):
        add(line(g), g.choice(bigs) if g.random() < .5 else None)
    ctx.conform("S16", cs, command, make=lambda: None, what="commands")
