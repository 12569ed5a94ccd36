"""S20: SHA-256, HMAC, PBKDF2 and byte comparison."""
import itertools
import fw
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)"]
CPUS = [[1, 1, 1, 1, 1], [0, 0, 0, 1, 1], [0, 0, 0, 0, 0], [0, 0, 1, 0, 1], [0, 0, 0, 1, 0]]
h = lambda b: b.hex() or "-"

def one(vh, c):
    if "cpu" in c and not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", *c["cpu"])
    k = c["kind"]
    if k == "sha":
        if c["buf"]:
            r = vh.call("shabuf", c["mis"], c["parts"][0] or "-")
        else:
            r = vh.call("sha", c["mis"], *[p or "-" for p in c["parts"]])
    elif k == "hmac":
        if c["buf"]:
            r = vh.call("hmacbuf", c["mis"], c["key"] or "-", c["parts"][0] or "-")
        else:
            r = vh.call("hmac", c["mis"], c["key"] or "-", *[p or "-" for p in c["parts"]])
    elif k == "pbkdf2":
        r = vh.call("pbkdf2", c["mis"], c["pw"] or "-", c["salt"] or "-", c["c"], c["len"])
    elif k == "pbktail":
        r = vh.call("pbkdf2", c["mis"], c["pw"] or "-", c["salt"] or "-", c["c"], c["len"], c["k"])
    elif k == "rep":
        if c["zero"]:
            r = vh.call("shazero", ((c["nh"] << 20) + c["nl"]) * 64, c["tail"] or "-", timeout=300)
        else:
            r = vh.call("sharep", c["blk"], (c["nh"] << 20) + c["nl"], c["tail"] or "-", timeout=300)
        r["guards"] = 1
    elif k == "verify":
        r = vh.call("verify", c["mis"], c["x"] or "-", c["y"] or "-")
        r["guards"] = 1
    elif k == "verifyzero":
        r = vh.call("verifyzero", c["n"], c["at"], timeout=300)
        r["guards"] = 1
        return dict(kind=k, out=r["out"], guards=1, pos=-1 if c["at"] < 0 else 0)
    rec = dict(c, out=r["out"], guards=r["guards"])
    rec.pop("cpu", None)
    return rec

def stream(vh, c):
    if "cpu" in c and not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", *c["cpu"])
    ev = []
    for e in c["ops"]:
        e = dict(e)
        m = e.pop("m", None)
        if e["e"] == "sha":
            vh.call("shas_init", e["k"])
        elif e["e"] == "hmac":
            vh.call("hmacs_init", e["k"], e["key"] or "-")
        elif e["e"] == "upd":
            vh.call(m + "s_upd", e["k"], e["d"] or "-")
        else:
            e["out"] = vh.call(m + "s_fin", e["k"])["out"]
        ev.append(e)
    return dict(ev=ev)

def cut(g, m, ways=None):
    n = len(m)
    k = g.choice([1, 1, 2, 2, 3, 4, 8])
    cuts = sorted(g.randrange(n + 1) for _ in range(k - 1))
    if g.random() < .5:
        cuts = sorted(min(n, 64 * (c // 64) + g.choice([0, 0, 1, 63])) for c in cuts)
    cuts = [0] + cuts + [n]
    return [m[a:b].hex() for a, b in zip(cuts, cuts[1:])]

def run(ctx):
    g = ctx.rng
    ctx.design("AesSBox", cfg_text="INIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n") if ctx.thorough else None
    ctx.equiv(("sha", "sharep", "hmac", "pbkdf2"), ctx.t(1, 6))
    ctx.inductive("ShaFull")
    cs = []
    mis = lambda: g.choice([0, 0, 1, 2, 3, 4, 7, 8, 12])
    # every length up to several blocks, whole and cut
    for n in range(0, 330):
        m = g.randbytes(n)
        cs.append(dict(kind="sha", buf=1, mis=mis(), parts=[m.hex()]))
        cs.append(dict(kind="sha", buf=0, mis=mis(), parts=cut(g, m)))
    # all ways of cutting into up to three parts of critical sizes
    crit = [0, 1, 55, 56, 63, 64, 65, 127, 128]
    for k in (1, 2, 3):
        for ls in itertools.product(crit, repeat=k):
            cs.append(dict(kind="sha", buf=0, mis=mis(), parts=[g.randbytes(x).hex() for x in ls]))
    for n in (1000, 4096, 5000, 65535, 65536):
        m = g.randbytes(n)
        cs.append(dict(kind="sha", buf=0, mis=mis(), parts=cut(g, m)))
    for kl in list(range(0, 70)) + [96, 127, 128, 129, 200, 500]:
        for n in (0, 1, 63, 64, g.randrange(300)):
            m = g.randbytes(n)
            b = g.randrange(2)
            cs.append(dict(kind="hmac", buf=b, mis=mis(), key=g.randbytes(kl).hex(), parts=[m.hex()] if b else cut(g, m)))
    for n in list(range(0, 100)) + [127, 128, 129, 255, 256, 257, 1000]:
        cs.append(dict(kind="pbkdf2", mis=mis(), pw=g.randbytes(g.randrange(70)).hex(), salt=g.randbytes(g.randrange(140)).hex(),
                       c=g.choice([1, 1, 2, 3, 10]), len=n))
    for L in range(0, 150, 3):
        cs.append(dict(kind="pbkdf2", mis=mis(), pw=g.randbytes(L).hex(), salt=g.randbytes(8).hex(), c=1, len=40))
        cs.append(dict(kind="pbkdf2", mis=mis(), pw=g.randbytes(8).hex(), salt=g.randbytes(L).hex(), c=2, len=70))
    cs.append(dict(kind="pbkdf2", mis=1, pw="70", salt="73", c=4096, len=64))
    cs.append(dict(kind="pbkdf2", mis=0, pw="70", salt="73" * 100, c=1, len=32 * 257 + 5))
    for _ in range(ctx.t(150, 4000)):
        cs.append(dict(kind="pbkdf2", mis=mis(), pw=g.randbytes(g.randrange(150)).hex(), salt=g.randbytes(g.randrange(300)).hex(), c=g.randrange(1, 6), len=g.randrange(200)))
        m = g.randbytes(g.randrange(700))
        cs.append(dict(kind="sha", buf=0, mis=mis(), parts=cut(g, m)))
        cs.append(dict(kind="hmac", buf=0, mis=mis(), key=g.randbytes(g.randrange(140)).hex(), parts=cut(g, m)))
    flat = [dict(c, cpu=cpu) for c in cs for cpu in CPUS]
    ctx.conform("S20", flat, one, nproc=5, what="oneshot")
    # comparison: single differences anywhere, several differences, none
    vs = []
    for n in list(range(0, 70)) + [127, 128, 255, 256, 257]:
        x = g.randbytes(n)
        vs.append(dict(kind="verify", mis=mis(), x=x.hex(), y=x.hex()))
        for i in range(n):
            if n > 40 and i % 5 and i != n - 1:
                continue
            for b in (range(8) if n in (1, 2, 3, 7, 8, 9, 16, 32) else [g.randrange(8)]):
                y = bytearray(x)
                y[i] ^= 1 << b
                vs.append(dict(kind="verify", mis=mis(), x=x.hex(), y=bytes(y).hex()))
        for _ in range(4):
            if n >= 2:
                i, j = g.sample(range(n), 2)
                y = bytearray(x)
                d = g.randrange(1, 256)
                y[i] ^= d
                y[j] ^= d
                vs.append(dict(kind="verify", mis=mis(), x=x.hex(), y=bytes(y).hex()))
                y = bytearray(x)
                y[i] = (y[i] + d) & 255
                y[j] = (y[j] - d) & 255
                vs.append(dict(kind="verify", mis=mis(), x=x.hex(), y=bytes(y).hex()))
    ctx.conform("S20", vs, one, what="verify")
    # streams: contexts used in turn
    ss = []
    for i in range(ctx.t(60, 800)):
        ops, mode = [], {}
        for _ in range(g.randrange(10, 40)):
            k = g.randrange(4)
            if k not in mode:
                if g.random() < .5:
                    mode[k] = "sha"
                    ops.append(dict(e="sha", k=k))
                else:
                    mode[k] = "hmac"
                    ops.append(dict(e="hmac", k=k, key=g.randbytes(g.choice([0, 20, 32, 64, 65, 100])).hex()))
            elif g.random() < .7:
                ops.append(dict(e="upd", k=k, m="sha" if mode[k] == "sha" else "hmac", d=g.randbytes(g.choice([0, 1, 20, 55, 63, 64, 65, 130, g.randrange(300)])).hex()))
            else:
                ops.append(dict(e="fin", k=k, m="sha" if mode[k] == "sha" else "hmac"))
                del mode[k]
        for k, v in mode.items():
            ops.append(dict(e="fin", k=k, m="sha" if v == "sha" else "hmac"))
        ss.append(dict(ops=ops, cpu=CPUS[i % 5]))
    ctx.conform("HashTrace", ss, stream, nproc=5, trace=True, what="streams",
                judge_kw=dict(cfg_text="CONSTANT Ctx = {0, 1, 2, 3}\nINIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"))
    # beyond 2^29 and 2^32 bytes
    rs = [dict(kind="rep", zero=0, blk=g.randbytes(64).hex(), nh=8, nl=n, tail=g.randbytes(t).hex(), cpu=cpu)
          for n, t, cpu in ((0, 0, CPUS[0]), (1, 55, CPUS[0]), (3, 56, CPUS[1]))]
    rs += [dict(kind="rep", zero=1, blk="00" * 64, nh=64, nl=77, tail="616263", cpu=CPUS[0])]
    rs += [dict(kind="verifyzero", n=(1 << 32) + 5, at=a) for a in (-1, (1 << 32) + 3, 0)]
    rs += [dict(kind="pbktail", mis=0, pw="7077", salt="6e61", c=1, len=32 * 65537 + 9, k=80)]
    if ctx.thorough:
        rs += [dict(kind="rep", zero=0, blk=g.randbytes(64).hex(), nh=65, nl=7, tail=g.randbytes(9).hex(), cpu=cpu) for cpu in CPUS[:3]]
        rs += [dict(kind="rep", zero=1, blk="00" * 64, nh=80, nl=5, tail="616263", cpu=CPUS[2])]
        rs += [dict(kind="pbktail", mis=0, pw="7077", salt="6e61", c=1, len=32 * (1 << 22) + 9, k=80)]
    ctx.conform("S20", rs, one, nproc=8, what="long", fresh=True)
