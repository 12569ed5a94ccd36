"""S13: randomness and salts, validated on traces of entropy events."""
import fw
ASSUMPTIONS = ["/dev/urandom (or a script standing in for it) is the operating-system entropy source",
               "Java evaluation of HMAC-SHA-256 (checked against the TLA+ definition every run)"]
P8 = ("0", "0.125", "5", "1", "1", "1", "0", "0")   # explicit parameters log2(N)=1, r=1, p=1
CFG = "CONSTANTS ReseedInterval = 256\n MaxRequest = 65536\nINIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"

def one(vh, c):
    if not getattr(vh, "cpu_set", False):
        vh.cpu_set = True
        vh.call("cpu", 1, c["rdrand"], 1, 1, 1)
    vh.call("kdf", 1, 0, 0, 0, 0)
    ev = []
    KEEP = ("rndopen", "rnd", "rdrand", "allocfail")
    def kept(es):
        out, steps = [], []
        for e in es:
            if e["e"] == "step":
                steps.append(dict(ok=e["ok"], data=e["data"]))
            elif e["e"] in KEEP:
                if e["e"] == "rdrand" and (steps or mode4[0]):
                    e = dict(e, steps=steps)
                    steps = []
                out.append(e)
        return out
    mode4 = [False]
    vh.call("urandom", *(c["script"] or ["o5"]))
    for op in c["ops"]:
        t = op[0]
        if t == "rdmode":
            vh.call("rdrand", *op[1:])
            mode4[0] = op[1] == 4
        elif t == "script":
            vh.call("urandom", *op[1:])
        elif t == "req":
            ev.append(dict(e="call", n=op[1]))
            vh.call("trk", 1, op[2], 0, 0)
            r = vh.call("entropy", op[1], op[3])
            vh.call("trk", 0, 0, 0, 0)
            ev += kept(r["ev"])
            ev.append(dict(e="ret", rc=r["rc"], out=r["out"], guards=r["guards"]))
        elif t == "enc":
            ev.append(dict(e="call", n=32))
            if op[1]:
                r = vh.call("file", 2, op[2] or "-", 0, -1, -1, 0, "7077", *P8)
            else:
                r = vh.call("buf", 0, op[2] or "-", "7077", *P8)
            ev += kept(r["ev"])
            ev.append(dict(e="enc", rc=r["rc"], salt=r["out"][32:96] if r["rc"] == 0 else "",
                           outlen=len(r["out"]) // 2, kdf=sum(1 for e in r["ev"] if e["e"] == "kdf")))
        elif t == "encfail":
            # (why: the key derivation fails, or nothing can be written)
            ev.append(dict(e="call", n=32))
            vh.call("kdf", 1, 0, int(op[1] == "kdf"), 0, 0)
            if op[1] == "write":
                r = vh.call("file", 2, op[3] or "-", 0, -1, op[2], 0, "7077", *P8)
            elif op[2]:
                r = vh.call("file", 2, op[3] or "-", 0, -1, -1, 0, "7077", *P8)
            else:
                r = vh.call("buf", 0, op[3] or "-", "7077", *P8)
            vh.call("kdf", 1, 0, 0, 0, 0)
            ev += kept(r["ev"])
            ks = [e for e in r["ev"] if e["e"] == "kdf"]
            ev.append(dict(e="encfail", rc=1 if r["rc"] == 0 and r.get("fclose") else r["rc"], kdf=len(ks), salt=ks[-1]["salt"] if ks else ""))
        elif t == "os":
            r = vh.call("osentropy", op[1])
            rd = kept(r["ev"])
            ev.append(dict(e="os", n=op[1], rc=r["rc"], out=r["out"], got=[e["data"] for e in rd if e["e"] == "rnd" and e["got"] > 0],
                           err=int(any(e["e"] == "allocfail" or e.get("ok") == 0 or e.get("got", 1) <= 0 for e in rd))))
    vh.call("urandom")
    vh.call("rdrand", 0)
    return dict(ev=ev)

def script(g, n, fail):
    """n bytes of entropy in pieces, with failures."""
    out = []
    while n > 0:
        k = min(n, g.choice([1, 2, 7, 16, 31, 32, 47, 48, 49, 64, 200]))
        out.append("d" + g.randbytes(k).hex())
        n -= k
        if g.random() < fail:
            out.append(g.choice(["e5", "z", "o13", "e4", "c4", "o24"]))
    return out

def run(ctx):
    g = ctx.rng
    ctx.design("DrbgDesign", cfg_text="CONSTANTS Interval = 2\n MaxReq = 2\n Steps = %d\nINIT Init\nNEXT Next\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n" % ctx.t(4, 6))
    ctx.equiv(("hmac",), 2)
    sizes = [0, 1, 5, 31, 32, 33, 63, 64, 65, 100, 1000]
    cs = []
    def rdops():
        return g.choice([[("rdmode", 0)], [("rdmode", 1)], [("rdmode", 2, g.randbytes(32).hex())], [("rdmode", 3)], [("rdmode", 2, "00" * 32)],
                         [("rdmode", 4, g.randbytes(256).hex(), g.choice([64, 64, 0, 1, 5, 7, 8, 9, 20]))]])
    for rdrand in (0, 1):
        # plain use: sizes, then beyond the reseed interval several times
        for z in range(ctx.t(3, 12)):
            ops = rdops()
            if ops[0][1] == 0:
                ops = [("rdmode", 3)]
            for n in sizes:
                ops.append(("req", n, 0, g.randrange(16)))
            for _ in range(ctx.t(550, 1100)):
                ops.append(("req", g.choice([1, 16, 32, 32, 32, 33, 48, 0]), 0, 0))
            cs.append(dict(rdrand=rdrand, script=script(g, 400, 0), ops=ops))
        # entropy failing at every stage: at the start and when reseeding
        for fail in ("e5", "z", "o13", "e4", "o24", "e11"):
            for at in (0, 1, 16, 47):
                sc = (["d" + g.randbytes(at).hex()] if at else []) + [fail] + script(g, 300, 0)
                ops = [("rdmode", 3)] + [("req", n, 0, 3) for n in (32, 32, 100, 32)] + [("enc", 0, "6162"), ("enc", 1, "616263")]
                cs.append(dict(rdrand=rdrand, script=sc, ops=ops))
                ops = [("rdmode", 3)] + [("enc", g.randrange(2), "6162") for _ in range(4)]
                cs.append(dict(rdrand=rdrand, script=sc, ops=ops))
            for at in (0, 1, 31):
                sc = ["d" + g.randbytes(48).hex()] + (["d" + g.randbytes(at).hex()] if at else []) + [fail] + script(g, 300, 0)
                ops = [("rdmode", 3)] + [("req", 32, 0, 0) for _ in range(256)] + [g.choice([("req", 32, 0, 0), ("enc", g.randrange(2), "6162")]) for _ in range(5)]
                cs.append(dict(rdrand=rdrand, script=sc, ops=ops))
                # a reseed in the middle of one request
                ops = [("rdmode", 3)] + [("req", 32, 0, 0) for _ in range(255)] + [("req", 65536 + 40, 0, 0)] + [("req", 32, 0, 0) for _ in range(3)]
                cs.append(dict(rdrand=rdrand, script=sc, ops=ops))
        # encryptions that fail after the salt was drawn
        for why in (("kdf", 0), ("kdf", 1), ("write", 0), ("write", 50), ("write", 96), ("write", 120)):
            ops = [("rdmode", 3)]
            for _ in range(g.choice([2, 140])):
                ops += [("encfail", *why, "6162" * 4), ("enc", g.randrange(2), "6162")]
            cs.append(dict(rdrand=rdrand, script=script(g, 400, 0), ops=ops))
        # allocation failures
        for k in (1, 2, 3):
            cs.append(dict(rdrand=rdrand, script=script(g, 300, 0), ops=[("rdmode", 3), ("req", 32, k, 0), ("req", 32, 0, 0), ("req", 33, k, 0), ("req", 32, 0, 0)]))
        # large requests
        for n in [65535, 65536, 65537, 3 * 65536 + 1]:
            cs.append(dict(rdrand=rdrand, script=script(g, 500, 0), ops=[("rdmode", 3), ("req", 7, 0, 0), ("req", n, 0, 1), ("req", 40, 0, 0)]))
        cs.append(dict(rdrand=rdrand, script=script(g, 500, 0), ops=[("rdmode", 3)] + [("req", 32, 0, 0)] * 254 + [("req", 5 * 65536 - 1, 0, 0), ("req", 32, 0, 0)]))
        # random mixtures
        for _ in range(ctx.t(40, 600)):
            ops = rdops()
            if ops[0][1] == 0:
                ops = [("rdmode", 3)]
            for _ in range(g.choice([10, 30, 300, 600])):
                x = g.random()
                if x < .05:
                    ops.append(("enc", g.randrange(2), g.randbytes(g.randrange(5)).hex()))
                elif x < .08:
                    ops.append(("encfail", *g.choice([("kdf", 0), ("kdf", 1), ("write", 0), ("write", 96), ("write", 130)]), "6162" * 4))
                elif x < .1:
                    ops.append(("req", g.choice([1000, 5000]), 0, 0))
                elif x < .12:
                    ops.append(("script",) + tuple(script(g, 300, .2)))
                elif x < .13:
                    ops.append(("os", g.choice([0, 1, 16, 33, 100])))
                else:
                    ops.append(("req", g.choice(sizes[:-1]), 0, 0))
            cs.append(dict(rdrand=rdrand, script=script(g, 1000, g.choice([0, .05, .2])), ops=ops))
    ctx.conform("DrbgTrace", cs, one, trace=True, what="generator", fresh=True, judge_kw=dict(cfg_text=CFG))
    # reading operating-system entropy
    os_ = []
    for _ in range(ctx.t(150, 2000)):
        n = g.choice([0, 1, 16, 32, 48, 100, 1000])
        os_.append(dict(rdrand=0, script=script(g, n + g.choice([0, 0, 5, -1]) * g.randrange(3), g.choice([0, 0, .3])), ops=[("os", n)] + [("os", 16)] * 2))
    ctx.conform("DrbgTrace", os_, one, trace=True, what="os_entropy", judge_kw=dict(cfg_text=CFG))
    # the real device: salts differ
    def real(vh, c):
        ev = []
        seen = []
        for _ in range(c["n"]):
            r = vh.call("buf", 0, "61", "7077", *P8)
            seen.append(r["out"][32:96])
        return dict(salts=seen, rc=r["rc"])
    ctx.conform("Salts", [dict(n=300), dict(n=40), dict(n=40), dict(n=40)], real, nproc=4, what="real_salts", fresh=True)
    if ctx.thorough:
        cs = [dict(rdrand=0, script=script(g, 200, 0), ops=[("rdmode", 3), ("req", 258 * 65536, 0, 0), ("req", 32, 0, 0)])]
        ctx.conform("DrbgTrace", cs, one, trace=True, what="one_request_with_reseed", fresh=True, judge_kw=dict(cfg_text=CFG, heap="12g"))
