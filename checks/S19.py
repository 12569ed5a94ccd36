"""S19: AES-CTR streams, validated on traces of real stream operations."""
import itertools
import fw
ASSUMPTIONS = ["Java evaluation of the TLA+ AES operators (checked against the TLA+ definitions on samples every run)",
               "positions beyond a few GB are reached by setting the position field of the stream object, if a self-check finds it"]
AES, NOAES = [1, 1, 1, 1, 1], [0, 1, 1, 1, 1]

def findpos(vh):
    """Where in the stream object the position is, if setting it is
    equivalent to getting there by streaming.  None if not understood."""
    vh.call("aeskey", 60, "11" * 32)
    def st(s, n):
        vh.call("ctrinit", s, 60, "0x0102030405060708", 0)
        vh.call("ctrskip", s, n, 4096)
        return bytes.fromhex(vh.call("ctrpeek", s)["mem"])
    try:
        offs = None
        for n in (4096, 8192, 1 << 20, (1 << 20) + 4096 * 77):
            m = st(60, n)
            o = {i for i in range(0, len(m) - 7) if m[i:i + 8] == n.to_bytes(8, "little")}
            offs = o if offs is None else offs & o
        if len(offs) != 1:
            return None
        o = offs.pop()
        for n in (8192, 1 << 20, (1 << 24) + 4096 * 3):
            st(60, n)
            m = st(61, 4096)
            vh.call("ctrpoke", 61, (m[:o] + n.to_bytes(8, "little") + m[o + 8:]).hex())
            for d in ("00" * 5, "00" * 11, "00" * 40, "00" * 5000):
                if vh.call("ctr", 60, d, 0, 0)["out"] != vh.call("ctr", 61, d, 0, 0)["out"]:
                    return None
        return o
    finally:
        pass

def one(vh, c):
    if not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", *c["cpu"])
    ev = []
    for e in c["ops"]:
        e = dict(e)
        t = e["e"]
        mis, inpl, how = e.pop("mis", 0), e.pop("inpl", 0), e.pop("how", 0)
        if t == "key":
            e["ok"] = vh.call("aeskey", e["k"], e["b"], mis)["ok"]
        elif t == "freekey":
            vh.call("aeskeyfree", e["k"])
        elif t == "open":
            e["ok"] = vh.call("ctrinit", e["s"], e["k"], "0x" + e["nonce"], how)["ok"]
        elif t == "reset":
            vh.call("ctrinit", e["s"], "~", "0x" + e["nonce"], 2)
        elif t == "close":
            vh.call("ctrfree", e["s"])
        elif t == "crypt":
            r = vh.call("ctr", e["s"], e["in"] or "-", mis, inpl)
            e.update(out=r["out"], guards=r["guards"])
        elif t == "skip":
            n = e.pop("real", e["n"])
            vh.call("ctrskip", e["s"], n, e.pop("chunk", 1 << 20), timeout=600)
        elif t == "jump":
            if not hasattr(vh, "pos"):
                vh.pos = findpos(vh)
            if vh.pos is None:
                return dict(ev=[], nojump=1)
            m = bytes.fromhex(vh.call("ctrpeek", e["s"])["mem"])
            n = int(e["blk"], 16) * 16
            vh.call("ctrpoke", e["s"], (m[:vh.pos] + n.to_bytes(8, "little") + m[vh.pos + 8:]).hex())
        elif t == "buf":
            r = vh.call("ctrbuf", e["k"], "0x" + e["nonce"], e["in"] or "-", mis)
            e.update(out=r["out"], guards=r["guards"])
        elif t == "blk":
            r = vh.call("aesblk", e["k"], e["in"], mis, inpl)
            e.update(out=r["out"], guards=r["guards"])
        ev.append(e)
    return dict(ev=ev)

def run(ctx):
    g = ctx.rng
    ctx.design("AesSBox", cfg_text="INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n")
    ctx.equiv(("aes", "aesctr"), ctx.t(2, 10))
    ctx.inductive("CtrFull")
    mis = lambda: g.choice([0, 0, 1, 3, 4, 8, 15])
    crypt = lambda s, n: dict(e="crypt", s=s, mis=mis(), inpl=g.randrange(2), **{"in": g.randbytes(n).hex()})
    ts = []
    def add(ops):
        for cpu in (AES, NOAES):
            ts.append(dict(cpu=cpu, ops=ops))
    # blocks, both key sizes
    ops = []
    for i in range(40):
        ops += [dict(e="key", k=0, b=g.randbytes(g.choice([16, 32])).hex(), mis=mis()),
                dict(e="blk", k=0, mis=mis(), inpl=g.randrange(2), **{"in": g.randbytes(16).hex()}), dict(e="freekey", k=0)]
    add(ops)
    # every cut into up to three pieces of critical sizes, at several offsets
    crit = [0, 1, 15, 16, 17, 31, 32, 33, 48, 100]
    for kl, pre in [(32, 0), (32, 1), (32, 15), (16, 7)] + ctx.t([], [(16, 0), (16, 1), (16, 15), (32, 8)]):
        if True:
            for a in crit:
                ops = [dict(e="key", k=1, b=g.randbytes(kl).hex())]
                for b, c in itertools.product(crit, crit):
                    ops += [dict(e="open", s=0, k=1, nonce=g.randbytes(8).hex(), how=g.randrange(2)), crypt(0, pre), crypt(0, a), crypt(0, b), crypt(0, c), dict(e="close", s=0)]
                add(ops + [dict(e="freekey", k=1)])
    # around every multiple of 256 blocks and other carries
    for tgt in (4096, 8192, 65536, 1 << 20, 1 << 24, 1 << 28) + ctx.t((), (1 << 25, 1 << 29)):
        for d in (0, 1, 15, 16, 17, 33) if tgt < 1 << 24 else (0, 5, 17) if tgt < 1 << 28 or ctx.thorough else (g.choice([0, 5, 16, 17]),):
            ops = [dict(e="key", k=1, b=g.randbytes(32).hex()), dict(e="open", s=2, k=1, nonce=g.randbytes(8).hex(), how=0),
                   dict(e="skip", s=2, n=tgt - d, chunk=g.choice([13, 4096, 1 << 16, tgt]) if tgt < 1 << 20 else g.choice([13, 16, 1 << 16]))]
            for _ in range(6):
                ops.append(crypt(2, g.choice([1, 5, 15, 16, 17, 40, 100])))
            add(ops + [dict(e="close", s=2), dict(e="freekey", k=1)])
    # one long request, including across the carries
    for n in (4095, 4096, 4097, 70000):
        add([dict(e="key", k=1, b=g.randbytes(32).hex()), dict(e="buf", k=1, nonce=g.randbytes(8).hex(), mis=mis(), **{"in": g.randbytes(n).hex()}),
             dict(e="open", s=2, k=1, nonce="00" * 8, how=1), crypt(2, n), crypt(2, 3), crypt(2, n), dict(e="close", s=2), dict(e="freekey", k=1)])
    # several keys and streams used in turn, streams reset
    for _ in range(ctx.t(60, 1000)):
        ops, kk, ss = [], set(), {}
        for _ in range(g.randrange(20, 60)):
            x = g.random()
            if not kk or x < .05:
                k = g.randrange(4)
                if k not in kk:
                    ops.append(dict(e="key", k=k, b=g.randbytes(g.choice([16, 32])).hex(), mis=mis()))
                    kk.add(k)
            elif x < .2:
                s = g.randrange(4)
                if s not in ss:
                    ss[s] = g.choice(sorted(kk))
                    ops.append(dict(e="open", s=s, k=ss[s], nonce=g.choice(["00" * 8, g.randbytes(8).hex(), "ff" * 8]), how=g.randrange(2)))
                elif g.random() < .4:
                    ops.append(dict(e="reset", s=s, nonce=g.randbytes(8).hex()))
                elif g.random() < .4:
                    ops.append(dict(e="close", s=s))
                    del ss[s]
            elif x < .3:
                ops.append(dict(e="buf", k=g.choice(sorted(kk)), nonce=g.randbytes(8).hex(), mis=mis(), **{"in": g.randbytes(g.randrange(100)).hex()}))
            elif ss:
                s = g.choice(sorted(ss))
                if x < .4:
                    ops.append(dict(e="skip", s=s, n=g.randrange(9000), chunk=g.choice([7, 64, 1000, 9000])))
                else:
                    ops.append(crypt(s, g.choice([0, 1, 2, 15, 16, 17, 31, 47, 64, g.randrange(200)])))
        ops += [dict(e="close", s=s) for s in ss] + [dict(e="freekey", k=k) for k in kk]
        add(ops)
    ctx.conform("AesCtrTrace", ts, one, nproc=8, trace=True, what="streams")
    # far positions
    fs = []
    for cpu in (AES, NOAES):
        for p in (28, 30, 31, 32, 33, 35, 36, 40, 47, 48, 56, 59):
            for delta in (0, -256, 256 * 3):
                blk = (1 << p) + delta
                ops = [dict(e="key", k=1, b=g.randbytes(32).hex()), dict(e="open", s=2, k=1, nonce=g.randbytes(8).hex(), how=0),
                       dict(e="skip", s=2, n=4096), dict(e="jump", s=2, blk="%016x" % blk)]
                ops += [crypt(2, 5), crypt(2, 11), crypt(2, 40), crypt(2, 7)] + [crypt(2, g.choice([16, 33, 3])) for _ in range(3)]
                ops += [dict(e="skip", s=2, n=4096), crypt(2, 100), dict(e="close", s=2), dict(e="freekey", k=1)]
                fs.append(dict(cpu=cpu, ops=ops))
    recs = ctx.conform("AesCtrTrace", fs, one, nproc=8, trace=True, what="far_positions")
    n = sum(1 for r in recs if r.get("nojump"))
    if n:
        ctx.notes.append("%d far-position traces skipped: the position field of the stream object was not recognised" % n)
    # streaming the long way
    ls = []
    for cpu in (AES, NOAES):
        # of 2 GB; farther (2^36, 2^32 bytes) if positions could not be set
        reps = (34 if cpu is AES else 2) if ctx.thorough or n else (2 if cpu is AES else 0)
        ops = [dict(e="key", k=1, b=g.randbytes(32).hex()), dict(e="open", s=2, k=1, nonce=g.randbytes(8).hex(), how=0)]
        for i in range(reps):
            ops += [dict(e="skip", s=2, n=(1 << 30) - 16, chunk=1 << 16), dict(e="skip", s=2, n=(1 << 30) + 16, chunk=1 << 20), crypt(2, 33), crypt(2, 15)]
        ls.append(dict(cpu=cpu, ops=ops))
    ctx.conform("AesCtrTrace", ls, one, nproc=2, trace=True, what="long_streams", fresh=True)
    if ctx.thorough:   # one request beyond 2^32 bytes
        for cpu in (AES, NOAES):
            n = (1 << 32) + 48
            ops = [dict(e="key", k=1, b=g.randbytes(32).hex()), dict(e="open", s=2, k=1, nonce=g.randbytes(8).hex(), how=0),
                   dict(e="skip", s=2, n=1 << 30, real=n, chunk=n)] + [dict(e="skip", s=2, n=1 << 30, real=0)] * 3
            ops += [dict(e="skip", s=2, n=48, real=0), crypt(2, 33), crypt(2, 15)]
            ctx.conform("AesCtrTrace", [dict(cpu=cpu, ops=ops)], one, nproc=1, trace=True, what="one_request_beyond_4GB", fresh=True)
    san = [dict(t) for t in ts[:60]]
    ctx.conform("AesCtrTrace", san, one, nproc=8, trace=True, what="sanitized", variant="san")
