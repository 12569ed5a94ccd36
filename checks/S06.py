"""S06: verdicts, their precedence, and no output before authentication."""
import hashlib, itertools, os, struct
import fw, scr
from scr import make_containers, dec_trace, STREAM_CFG, Scratch, cli, p8, budget, FORCE
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "limits and clock are scripted for the cases that exceed them"]
# 512 operations per second, measured exactly; 1 GiB of memory
CLOCK = ["clock", 0, 1, 1, "m0", "m1000000000", "m1000000000", "m2000000000"]
LIM = ["lim", "inf", "inf", "inf", 1 << 30, 1, 4096, 1 << 18]

def buf(vh, c):
    for s in (CLOCK, LIM):
        vh.call(*s)
    vh.call("kdf", 1, 0, 0, 0, 1)
    r = vh.call("buf", 1, c["box"] or "-", c["pw"] or "-", *c["p8"])
    for s in ("clock", "lim"):
        vh.call(s)
    return dict(via="buf", box=c["box"], pw=c["pw"], lim=c["lim"], rc=r["rc"], nkdf=sum(e["e"] == "kdf" for e in r["ev"]), untouched=r["untouched"], guards=r["guards"])

def command(vh, c):
    with Scratch() as d:
        data = bytes.fromhex(c["box"])
        args = ["dec"] + c["opts"] + ["--passphrase", "env:PW"]
        open(d + "/in", "wb").write(data)
        stdin = b""
        inname = outname = ""
        if c["input"] == "-":
            stdin = data
            args.append("-")
        else:
            inname = d + "/in"
            args.append(inname)
        before = "absent"
        if c["output"] != "-":
            outname = d + "/out"
            args.append(outname)
            if c["output"] == "old":
                open(outname, "wb").write(b"older contents\n")
                before = b"older contents\n".hex()
        r = cli(args, stdin=stdin, env={"PW": os.fsdecode(bytes.fromhex(c["pw"]))}, cmds=[CLOCK, LIM, ["kdf", 1, 0, 0, 0, 1]])
        after = open(d + "/out", "rb").read().hex() if os.path.exists(d + "/out") else "absent"
    return dict(via="cli", box=c["box"], pw=c["pw"], lim=c["lim"], rc=r.rc, stdout=r.out.hex(), err=r.err.decode("latin1"), before=before, after=after, inname=inname, outname=outname,
                nkdf=sum(e["e"] == "kdf" for e in r.ev) if r.ev is not None else -1)

def header(b, logN=None, r=None, p=None):
    """Other parameters, with a right checksum."""
    b = bytearray(b)
    if logN is not None:
        b[7] = logN & 255
    if r is not None:
        b[8:12] = struct.pack(">I", r)
    if p is not None:
        b[12:16] = struct.pack(">I", p)
    b[48:64] = hashlib.sha256(bytes(b[:48])).digest()[:16]
    return bytes(b)

INVALID = [(0, 1, 1), (64, 1, 1), (65, 1, 1), (255, 8, 1), (128, 1, 1), (1, 0, 1), (1, 1, 0), (1, 0, 0), (1, 32768, 32768), (1, 1 << 30, 1), (1, 1, 1 << 30), (1, 65536, 65536), (1, 2 ** 32 - 1, 2 ** 32 - 1),
           (1, 1 << 31, 2), (10, 2, 1 << 31), (0, 0, 0), (1, 1 << 16, 1 << 14), (5, 2 ** 32 - 1, 1), (14, 3, 357913942)]
BIG = [(13, 2, 1), (12, 3, 1), (13, 1, 2)]        # beyond 1 MiB, within the time
SLOW = [(1, 32769, 32767), (1, 1, 30000), (5, 1, 5000), (10, 8, 8)]  # the other way round
BOTH = [(20, 100, 1), (63, 1, 1), (40, 8, 1), (62, 1, 1), (57, 1, 1), (13, 32768, 32767), (63, 1, (1 << 30) - 1), (63, 2 ** 30 - 1, 1), (56, 2, 1), (58, 128, 1), (60, 16, 3)]

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    ctx.design("DecAlg")
    base = []
    for n in (0, 1, 31, 32, 33, 40, 100):
        base.append(dict(pw=b"pass", salt=g.randbytes(32), logN=1, r=1, p=1, data=g.randbytes(n)))
    boxes = make_containers(ctx, base)
    lims = [dict(p8=p8(maxmem=1 << 20, frac="0.5", time="300"), lim=budget(1 << 20, 512 * 300), opts=["-M", "1M", "-t", "300"]),
            dict(p8=p8(maxmem=0, frac="0.5", time="300"), lim=budget(1 << 29, 512 * 300), opts=[]),
            dict(p8=p8(maxmem=1, frac="0.001", time="300"), lim=budget(1 << 20, 512 * 300), opts=["-M", "1", "-m", "0.001"])]
    lims[0]["opts"] = ["-M", "1000"]      # below the floor of 1 MiB
    force = dict(p8=p8(force=1), lim=FORCE, opts=["-f"])
    cs = []
    def add(b, pw, how):
        cs.append(dict(how, box=b.hex(), pw=pw.hex()))
    # every combination of things that are wrong
    for n in range(ctx.t(2, 10)):
        for bits in itertools.product((0, 1), repeat=8):
            magic, version, short, checksum, params, limit, pw, body = bits
            b = g.choice(boxes)
            how = lims[0] if limit else g.choice(lims + [force])
            if params:
                b = header(b, *g.choice(INVALID))
            elif limit:
                b = header(b, *g.choice(BIG + SLOW + BOTH))
            x = bytearray(b)
            if body and len(x) > 97:
                x[96 + g.randrange(len(x) - 96)] ^= 1 << g.randrange(8)
            if checksum:
                x[16 + g.randrange(48)] ^= 1 << g.randrange(8)
            if version:
                x[6] = g.choice([1, 2, 255, 128, 48, 64])
            if magic:
                x[g.randrange(6)] ^= g.choice([1, 32, 255, 128])
            if short:
                x = x[:g.choice([0, 1, 5, 6, 7, 8, 16, 47, 48, 63, 64, 95])]
            add(bytes(x), b"pass" if not pw else g.choice([b"", b"Pass", b"pas", b"pass "]), how)
    # every length, right and wrong in other respects
    for b in (boxes[0], boxes[5]):
        for n in range(len(b) + 1):
            add(b[:n], b"pass", g.choice(lims + [force]))
            add(b[:n], b"wrong", g.choice(lims + [force]))
            if n < 100:
                x = bytearray(b[:n])
                if x:
                    x[g.randrange(min(n, 7))] ^= 1 << g.randrange(8)
                add(bytes(x), b"pass", force)
    # every version and every first byte
    for v in range(256):
        x = bytearray(boxes[5])
        x[6] = v
        add(bytes(x), b"pass", force)
        add(bytes(x[:g.choice([7, 50, 96, 128])]), b"pass", lims[0])
        x[6] = 0
        x[v % 6] ^= (v // 6) + 1
        add(bytes(x), b"pass", force)
    # every bit of the header
    for i in range(96 * 8):
        x = bytearray(boxes[3])
        x[i // 8] ^= 1 << (i % 8)
        add(bytes(x), b"pass", g.choice(lims + [force]))
    # parameters around their limits, with a right checksum and a wrong signature
    for q in INVALID + BIG + SLOW + BOTH:
        for how in lims[:1] + ([force] if q in INVALID else []):
            add(header(g.choice(boxes), *q), b"pass", how)
    for q in [(13, 1, 1), (12, 2, 1), (1, 1, 19200), (1, 1, 19201), (1, 2, 9600), (1, 3, 6400), (1, 3, 6401), (4, 1, 2400), (4, 1, 2401), (1, 4096, 1), (1, 4097, 1)]:
        add(header(g.choice(boxes), *q), b"pass", lims[0])
    for c in cs:
        c["chunks"] = g.choice(["0", "1", "7", "96", "96,1", "95,2", "6,1", "32"])
        c["unbuf"] = g.randrange(4)
        c["setup"] = [CLOCK, LIM]
        c["after"] = [["clock"], ["lim"]]
    ctx.conform("S06", cs, buf, what="buffers")
    streams = [dict(c, via="file") for c in cs[::ctx.t(2, 1)]] + [dict(c, via="prep") for c in cs[1::ctx.t(2, 1)]]
    ctx.conform("DecTrace", streams, dec_trace, trace=True, judge_kw=dict(cfg_text=STREAM_CFG), what="streams")
    ks = [dict(c, via="cli", input=g.choice(["-", "file"]), output=g.choice(["-", "new", "old"])) for c in g.sample(cs, ctx.t(330, 2000))]
    ctx.conform("S06", ks, command, what="command")
    ss = [dict(c) for c in g.sample(cs, ctx.t(500, 4000))]
    ctx.conform("S06", ss, buf, what="sanitized", variant="san")
    ctx.conform("DecTrace", [dict(c, via="file") for c in ss], dec_trace, trace=True, judge_kw=dict(cfg_text=STREAM_CFG), what="sanitized", variant="san")
