"""S07: streaming decryption emits only prefixes of the true plaintext."""
import fw, scr
from scr import make_containers, dec_trace, STREAM_CFG
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "stdio of the C library between the code and the recorded reads and writes"]

def mutate(g, b):
    """Something that has gone wrong with the body of a container."""
    k = g.randrange(7)
    b = bytearray(b)
    body = len(b) - 96
    if k == 0 and body:
        b[96 + g.randrange(body)] ^= 1 << g.randrange(8)
    elif k == 1:
        del b[96 + g.randrange(body + 1):]
    elif k == 2:
        b += g.randbytes(g.choice([1, 31, 32, 33, 100, 65536]))
    elif k == 3:
        b[-32:] = g.randbytes(32)
    elif k == 4:
        del b[-g.choice([1, 31, 32, 33, 64]):]
    elif k == 5:
        b[64 + g.randrange(32)] ^= 1
    else:
        b += b[-32:]
    return bytes(b)

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    for k, (blk, ln) in enumerate(((3, 11), (1, 8), (5, ctx.t(12, 16)))):
        ctx.design("DecAlg", cfg_text="CONSTANTS HeadLen = 2\n SigLen = 2\n Block = %d\n MaxLen = %d\nINIT AInit\nNEXT ANext\nINVARIANT Inv\nPROPERTY Refines\nCHECK_DEADLOCK TRUE\n" % (blk, ln))
    ctx.inductive("DecFull")
    CH = ["0", "1", "7", "31", "32", "33", "96", "97", "128", "96,1", "95,1", "96,32", "96,33,1", "4096", "4095,1", "65536", "65568", "65567", "65569", "65535,1,2", "65536,32",
          "96,65568", "96,65568,1", "96,65568,31", "96,65568,32", "96,65568,33", "96,31,65568", "96,32,65568", "96,33,65568", "100,3,1000", "96,65536"]
    specs, how = [], []
    def add(n, ch, **k):
        specs.append(dict(pw=b"pass", salt=b"s" * 32, logN=1, r=1, p=1, data=g.randbytes(n)))
        # (unbuffered input is read byte by byte)
        how.append(dict(via=g.choice(["file", "prep"]), chunks=ch, unbuf=k.pop("unbuf", g.randrange(4)) & (3 if n < 1000 else 2), **k))
    for n in (0, 1, 2, 31, 32, 33, 63, 64, 65, 100):
        for ch in ("1", "32", "96,1", "0", "96,31,1"):
            add(n, ch)
    big = [65503, 65504, 65505, 65535, 65536, 65537, 65567, 65568, 65569, 65599, 65600, 65601, 131071, 131072, 131073, 131135, 131136, 131137]
    for n in big:
        for ch in ("0", g.choice(CH[10:]), g.choice(CH[10:])):
            add(n, ch, unbuf=3)
        add(n, g.choice(CH[10:]))
    for i in range(ctx.t(100, 900)):
        add(g.choice([0, 1, 31, 32, 33, 40, 64, 100, 200] * 3 + big), g.choice(CH))
        if specs[-1]["data"].__len__() > 1000 and len(how[-1]["chunks"].split(",")[0]) < 4 and not how[-1]["chunks"].startswith("96,6"):
            how[-1]["chunks"] = g.choice(CH[13:])
    if ctx.thorough:
        for n in (300000, 1 << 20):
            for ch in ("0", "65568", "65536", "8191"):
                add(n, ch)
    boxes = make_containers(ctx, specs)
    cs = []
    for s, h, b in zip(specs, how, boxes):
        cs.append(dict(h, box=b.hex(), pw=s["pw"].hex()))
        # the same arrival, spoiled contents
        if len(b) < 1000 or g.random() < .5:
            cs.append(dict(h, box=mutate(g, b).hex(), pw=s["pw"].hex()))
    ctx.conform("DecTrace", cs, dec_trace, trace=True, judge_kw=dict(cfg_text=STREAM_CFG), what="streams")
    # the command, fed bit by bit
    specs = []
    for n in [0, 1, 31, 32, 33, 64, 100, 65504, 65536, 65537, 131072, 200000] * ctx.t(3, 12):
        specs.append(dict(pw=b"pass", salt=b"s" * 32, logN=1, r=1, p=1, data=g.randbytes(n)))
    ks = []
    for s, b in zip(specs, make_containers(ctx, specs)):
        m = len(b)
        cuts = sorted(g.sample([95, 96, 97, 127, 128, 129, 160, 96 + 65536, 96 + 65536 + 31, 96 + 65536 + 32, 96 + 65536 + 33, m - 33, m - 32, m - 31, m - 1, m // 2, 100 + 131072 + 28], 5))
        ks.append(dict(box=b.hex(), pw=s["pw"].hex(), cuts=cuts))
        ks.append(dict(box=mutate(g, b).hex(), pw=s["pw"].hex(), cuts=cuts))
    ctx.conform("DecTrace", ks, scr.dec_cli_trace, trace=True, judge_kw=dict(cfg_text=STREAM_CFG), what="command")
