"""S05: altered containers and wrong passphrases."""
import hashlib, json, os
import fw, scr
from scr import make_containers
from S03 import BIGQ
import S04
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "alterations are enumerated, not all byte strings"]

def one(vh, c):
    if c["via"] != "cli":
        vh.call("kdf", 0, c.get("fake", 0), 0, 0, 0)
    rc, out, n, rep, ok = S04.dec(vh, c, c["box"])
    rec = dict(fake=c.get("fake", 0), box=c["box"], pw=c["pw"], rc=rc, cli=int(c["via"] == "cli"), attack=c["attack"])
    if "says" in c:
        rec["says"] = c["says"]
    return rec

def splices(ctx, g):
    """What the adversary of Splice.tla can put together, from real parts."""
    dst = os.path.join(ctx.tmp, "splices")
    ctx.design("Splice", cfg_text="INIT SpInit\nNEXT SpNext\nINVARIANT Forged\nCHECK_DEADLOCK FALSE\n", env={"OUT": dst})
    pws, salts, qs = [b"one", b"two", b"three"], [g.randbytes(32), g.randbytes(32)], [(1, 1, 1), (2, 1, 3)]
    data = [g.randbytes(50), g.randbytes(50)]
    B = make_containers(ctx, [dict(pw=pws[p], salt=salts[s], logN=qs[q][0], r=qs[q][1], p=qs[q][2], data=data[d])
                              for p, s, q, d in ((0, 0, 0, 0), (0, 0, 0, 1), (0, 1, 0, 0), (0, 0, 1, 0), (1, 0, 0, 0))])
    out = []
    for l in open(dst):
        x = json.loads(l)
        a = x["asm"]
        h = B[a["q"] - 1][:16] + B[a["salt"] - 1][16:48]
        h += hashlib.sha256(h).digest()[:16] if a["sum"] == 0 else B[a["sum"] - 1][48:64]
        t = B[a["tsig"] - 1]
        body = t[96:-33] if a["body"] == 0 else t[96:-32] * 2 if a["body"] > len(B) else B[a["body"] - 1][96:-32]
        out.append((h + B[a["hsig"] - 1][64:96] + body + t[-32:], pws[x["pw"] - 1], x["says"]))
    return out

def sums(b):
    """The header checksum recomputed."""
    return b[:48] + hashlib.sha256(b[:48]).digest()[:16] + b[64:]

def alterations(g, b, others, every):
    """Altered versions of container b (bytes)."""
    n = len(b)
    out = []
    flip = lambda i, m: b[:i] + bytes([b[i] ^ m]) + b[i + 1:]
    for i in range(n):
        for k in range(8):
            if every or g.random() < .12:
                out.append(flip(i, 1 << k))
    for i in range(n):
        out.append(b[:i])                                  # truncated
        if every or g.random() < .3:
            out.append(b[:i] + b[i + 1:])                  # a byte removed
            out.append(b[:i] + bytes([b[i]]) + b[i:])      # duplicated
            out.append(b[:i] + b"\0" + b[i:])              # inserted
            out.append(flip(i, g.randrange(1, 256)))
            if i + 1 < n:
                out.append(b[:i] + b[i + 1:i + 2] + b[i:i + 1] + b[i + 2:])    # swapped
    for k in list(range(1, 40)) + [64, 96, 128]:
        out += [b + b"\0" * k, b + g.randbytes(k), b + b[-k:], b[:96] + b[96 + k:], b[:96] + g.randbytes(k) + b[96:], b[k:], b"\0" * k + b,
                b[:-32] + b"\0" * k + b[-32:], b[:-32] + b[-32 - k:]]
    for _ in range(60):
        i, j = sorted((g.randrange(n + 1), g.randrange(n + 1)))
        out += [b[:i] + b[j:], b[:i] + b[i:j][::-1] + b[j:], b[:i] + b[i:j] * 2 + b[j:], b[:i] + bytes(j - i) + b[j:], b[:i] + b"\xff" * (j - i) + b[j:]]
        x = bytearray(b)
        for _ in range(g.randrange(2, 6)):
            x[g.randrange(n)] ^= 1 << g.randrange(8)
        out.append(bytes(x))
        # two flips with the same mask, near each other, or half the trailer apart
        i = g.randrange(n)
        j = g.choice([i ^ 1, (i + 16) % n, (i + 8) % n, n - 1 - i])
        if i != j and j < n:
            m = 1 << g.randrange(8)
            x = bytearray(b)
            x[i] ^= m
            x[j] ^= m
            out.append(bytes(x))
    # parts of other containers
    for o in others:
        for cut in (7, 8, 16, 48, 64, 96):
            out += [b[:cut] + o[cut:], o[:cut] + b[cut:]]
        out += [b[:-32] + o[-32:], b[:64] + o[64:96] + b[96:], b[:48] + o[48:64] + b[64:], b[:96] + o[96:-32] + b[-32:], b + o, b + o[96:], b + b]
    # a new checksum over altered parameters or salt
    for i in list(range(7, 48)):
        if i in (8, 12):
            continue
        x = flip(i, 1 if i != 7 else 3)
        if x[7] < 1 or x[7] > 12 or i in (9, 10, 13, 14):
            x = flip(i, 0)
            x = x[:16] + bytes([x[16] ^ 1]) + x[17:]
        out.append(sums(x))
    out.append(sums(b[:8] + b[12:16] + b[8:12] + b[16:]))
    return [x for x in out if x != b]

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    VIA = ("buf", "file", "prep")
    def chunks(n):
        return g.choice(["0", "1", "7", "32", "96,1", "31,33", "100,3,1000"] if n < 2000 else ["0", "65568", "65536", "96,65568,31", "96,65568,32", "4096", "65535,1"])
    cs = []
    def add(via, b, pw, attack=1, **k):
        cs.append(dict(via=via, box=b.hex(), pw=pw.hex(), attack=attack, chunks=chunks(len(b)), unbuf=g.randrange(4) if len(b) < 2000 else 2 * g.randrange(2), force=1, slot=g.randrange(4), **k))
    specs = [dict(pw=b"passphrase", salt=g.randbytes(32), logN=q[0], r=q[1], p=q[2], data=g.randbytes(n))
             for n, q in ((0, (1, 1, 1)), (1, (1, 2, 1)), (17, (2, 1, 2)), (40, (1, 1, 1)), (64, (3, 1, 3)))]
    others = [dict(specs[3], data=g.randbytes(40)), dict(specs[3], salt=g.randbytes(32)), dict(specs[3], pw=b"other passphrase"), dict(specs[3], data=specs[3]["data"][:20]),
              dict(specs[3], r=2)]
    boxes, ob = make_containers(ctx, specs), make_containers(ctx, others)
    for k, (s, b) in enumerate(zip(specs, boxes)):
        alts = alterations(g, b, ob, ctx.thorough or k in (0, 3))
        for i, x in enumerate(alts):
            for via in (VIA if ctx.thorough else (VIA[(i + k) % 3],) if k not in (0, 3) else ("buf", VIA[1 + i % 2])):
                add(via, x, s["pw"], attack=int(x not in ob))
        for via in VIA:
            add(via, b, s["pw"], attack=0)
    # parameters too large to compute with (a stand-in derives the keys)
    fspecs = [dict(pw=b"passphrase", salt=g.randbytes(32), logN=q[0], r=q[1], p=q[2], data=g.randbytes(20), fake=1) for q in BIGQ + [[32, 8, 1], [40, 8, 16], [63, 1, 1]]]
    for s, b in zip(fspecs, make_containers(ctx, fspecs)):
        xs = [b[:i] + bytes([b[i] ^ 1 << g.randrange(8)]) + b[i + 1:] for i in range(len(b))] + [b[:i] for i in (0, 7, 95, 96, 127, 128, len(b) - 1)] + [b + b"\0", b + b[-32:]]
        # another header with a checksum of its own: the signature does not fit
        for _ in range(12):
            i = g.randrange(7, 48)
            x = b[:i] + bytes([b[i] ^ 1 << g.randrange(8)]) + b[i + 1:]
            xs.append(sums(x))
        xs.append(sums(b[:8] + (int.from_bytes(b[8:12], "big") & 0xffffff).to_bytes(4, "big") + b[12:] if b[8] else b[:8] + b"\1" + b[9:]))
        for x in xs:
            add(g.choice(VIA), x, s["pw"], fake=1)
        for via in VIA:
            add(via, b, s["pw"], attack=0, fake=1)
            add(via, b, s["pw"] + b"x", fake=1)
    # wrong passphrases
    long = bytes(range(1, 65)) + b"tail"
    for pw in (b"passphrase", b"", b"x", b"Pass Word 1", bytes(range(1, 65)), long, b"p" * 200, "pässwörd".encode()):
        s = dict(pw=pw, salt=g.randbytes(32), logN=1, r=1, p=1, data=b"data")
        b = make_containers(ctx, [s])[0]
        wrong = {pw[:-1], pw[1:], pw + b"x", pw + b"\n", pw + b" ", b" " + pw, pw + pw, pw.upper(), pw.lower(), pw.swapcase(), pw[::-1], b"", pw[:8], pw[:16], pw[:64], pw + b"\r", b"\0" + pw, pw + b"\0x"}
        for i in range(len(pw)):
            wrong.add(pw[:i] + bytes([pw[i] ^ (1 << g.randrange(8))]) + pw[i + 1:])
            wrong.add(pw[:i] + pw[i + 1:])
            wrong.add(pw[:i])
        for w in sorted(x for x in wrong if x.rstrip(b"\0") != pw):
            add(g.choice(VIA), b, w)
        for via in VIA:
            add(via, b, pw, attack=0)
        # (same key by the definition of HMAC: the specification decides)
        add(g.choice(VIA), b, pw + b"\0", attack=0)
        if len(pw) > 64:
            add(g.choice(VIA), b, hashlib.sha256(pw).digest(), attack=0)
    # beyond one block
    bigspecs = [dict(pw=b"big", salt=b"S" * 32, logN=1, r=1, p=1, data=g.randbytes(n)) for n in (65472, 65504, 65536, 65568, 131072, 140000)]
    for s, b in zip(bigspecs, make_containers(ctx, bigspecs)):
        n = len(b)
        E = [96, 97, 4096, 65503, 65504, 65535, 65536, 65567, 65568, 65599, 65600, 65631, 65632, 65663, 65664, 65695, 65696, 131071, 131167, 131168, 131200, n - 65, n - 64, n - 33, n - 32, n - 31, n - 1]
        for e in sorted({x for x in E if x < n}):
            for x in (b[:e] + bytes([b[e] ^ 1 << g.randrange(8)]) + b[e + 1:], b[:e]):
                add(g.choice(VIA[1:]) if g.random() < .8 else "buf", x, s["pw"])
        for x in (b + b"\0", b + b[-32:], b + g.randbytes(65536), b[:96] + b[96 + 65536:] if n > 96 + 65536 + 32 else b[:-1], b[:-32] + b[-64:], b[:96] + b[96:96 + 65536] * 2 + b[96 + 65536:]):
            if x != b:
                add(g.choice(VIA[1:]), x, s["pw"])
        add("file", b, s["pw"], attack=0)
    for i, (x, pw, says) in enumerate(splices(ctx, g)):
        cs.append(dict(via=VIA[i % 3], box=x.hex(), pw=pw.hex(), attack=int(says != 0), says=says, chunks=chunks(len(x)), unbuf=g.randrange(2), force=1, slot=i % 4))
    ctx.conform("S05", cs, one, nproc=8, what="library")
    # the command
    ks = []
    alts = alterations(g, boxes[3], ob, False)
    for x in g.sample(alts, ctx.t(90, 600)):
        ks.append(dict(via="cli", box=x.hex(), pw=b"passphrase".hex(), attack=int(x not in ob), opts=g.choice([["-f"], ["-f", "-v"]]), method=g.choice(["env", "file", "stdin"]), input=g.choice(["-", "file"]),
                       output=g.choice(["-", "file"]), old=g.randrange(2), feed=None))
    for w in (b"passphras", b"passphrase ", b"passphrasee", b"Passphrase", b"x"):
        for m in ("env", "file", "stdin"):
            ks.append(dict(via="cli", box=boxes[3].hex(), pw=w.hex(), attack=1, opts=["-f"], method=m, input="file", output="file", old=0, feed=None))
    ctx.conform("S05", ks, one, nproc=8, what="command")
    ss = [dict(c) for c in g.sample(cs, ctx.t(1000, 8000))]
    ctx.conform("S05", ss, one, nproc=8, what="sanitized", variant="san")
    scr.hugeconform(ctx, "altered")
