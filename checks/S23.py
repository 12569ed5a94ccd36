"""S23: operations one after another in one process."""
import json, os, time
import fw, scr, tlc as T
from scr import limbs, p8, Scratch
from S09 import clock, ops as opsof
from S14 import NoTtyVH
ASSUMPTIONS = ["operations are performed by one thread",
               "memory held for an open handle is at most four blocks"]

def histories(ctx, long, n):
    dst = os.path.join(ctx.tmp, "hist-%d" % time.time_ns())
    ctx.design("HistoryAll", cfg_text="CONSTANTS Long = %d\n N = %d\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n" % (long, n), env={"OUT": dst}, workers=1)
    return [json.loads(l)["ops"] for l in open(dst)]

CPUS = (None, [0, 0, 0, 0, 0], [1, 1, 1, 1, 1], [1, 0, 0, 1, 0], [0, 1, 1, 0, 1])
def chunks(g):
    return g.choice(["0", "0", "1", "7", "32", "96,1", "31,33", "100,3,1000"])

class World:
    """What operations are made of: passphrases, containers, parameters."""
    def __init__(self, ctx, g, fake):
        self.g, self.fake = g, fake
        self.pws = [b"passphrase", b"another", b"", bytes(g.randrange(1, 256) for _ in range(70))]
        qs = [(1, 1, 1), (2, 1, 2), (1, 8, 1), (3, 2, 1), (4, 1, 1)] if not fake else [(10, 1, 1), (14, 8, 1), (20, 8, 1), (17, 8, 3), (12, 1, 100), (1, 1, 1)]
        self.qs = qs
        self.specs = [dict(pw=g.choice(self.pws), salt=g.randbytes(32), logN=q[0], r=q[1], p=q[2], data=g.randbytes(g.choice([0, 1, 31, 32, 33, 100, 700, 5000])))
                      for q in qs for _ in range(3)]
    def made(self, boxes):
        self.boxes = boxes
    def limits(self):
        """-> lim, clock, q-args, budget"""
        g = self.g
        mem = 1 << g.randrange(20, 34)
        n, d = g.choice([1, 2, 8, 1024]), g.choice([1, 2])
        t = g.choice([0.5, 1, 4, 64, 4096])
        num, den = opsof(n, d, t)
        return dict(lim=["inf", "inf", "inf", 2 * mem, 1, 4096, 2 * mem >> 12], clk=clock(n, d)[1:], time=t, mem=limbs(mem), num=num, den=den)
    def op(self, kind, k):
        g = self.g
        c = dict(e=kind, k=k, fail="", at=-1, via=g.choice(["buf", "file"]), chunks=chunks(g), unbuf=g.randrange(4))
        if kind in ("enc", "encfail"):
            c.update(e="enc", pw=g.choice(self.pws).hex(), data=g.randbytes(g.choice([0, 1, 16, 33, 200, 3000])).hex(), pick=int(self.fake and g.random() < .5), q=list(g.choice(self.qs)), force=g.randrange(2), verbose=int(g.random() < .2))
            if c["pick"]:
                c["force"] = 0
            c.update(self.limits())
            if kind == "encfail":
                c["fail"] = g.choice(["limit", "clock", "entropy", "kdf", "alloc", "read", "write", "alloc", "write"])
                size = len(c["data"]) // 2
                if c["fail"] == "read":
                    c["via"], c["at"] = "file", g.choice([0, size, size // 2])
                if c["fail"] == "write":
                    c["via"], c["at"] = "file", g.choice([0, 50, 96, 96 + size // 2, 96 + size, size + 127, size + 128])
                if c["force"] and c["fail"] in ("limit", "clock"):
                    c["force"] = 0
        elif kind in ("dec", "decbad", "decfail", "prep", "prepfail"):
            i = g.randrange(len(self.boxes))
            b, pw = self.boxes[i], self.specs[i]["pw"]
            bad = kind == "decbad" or kind == "prepfail" and g.random() < .5 or kind == "prep" and g.random() < .1
            c.update(e="prep" if kind[:4] == "prep" else "dec", force=int(g.random() < .7), verbose=int(g.random() < .2))
            c.update(self.limits())
            if bad:
                m = g.randrange(5)
                at = g.choice([0, 3, 6, 7, 9, 20, 50, 70, 96, len(b) - 33, len(b) - 1, g.randrange(len(b))])
                if m < 2:
                    b = b[:at] + bytes([b[at] ^ 1 << g.randrange(8)]) + b[at + 1:]
                elif m == 2:
                    b = b[:at]
                elif m == 3:
                    b += b"\0" * g.randrange(1, 40)
                else:
                    pw = pw + b"x"
            elif kind in ("decfail", "prepfail"):
                c["fail"] = g.choice(["limit", "clock", "kdf", "alloc", "read", "alloc"] + ["write"] * (kind == "decfail"))
                if c["fail"] in ("limit", "clock"):
                    c["force"] = 0
                if c["fail"] == "read":
                    c["via"], c["at"] = "file", g.choice([0, 7, 50, 95, 96, len(b) - 32, len(b) - 1, g.randrange(len(b))])
                if c["fail"] == "write":
                    c["via"], c["at"] = "file", g.choice([0, 1, 50, max(0, len(b) - 129), max(0, len(b) - 128)])
            c.update(box=b.hex(), pw=pw.hex())
        elif kind in ("copy", "copyfail"):
            c["e"] = "copy"
            if kind == "copyfail":
                c["fail"] = g.choice(["write", "write", "alloc"])
                if c["fail"] == "write":
                    c["at"] = g.choice([0, 1, 30, 100, 1000])
        elif kind == "info":
            b = g.choice(self.boxes)
            c["box"] = g.choice([b, b[:96], b[:95], b[:20], b"x" + b[1:], b[:6] + b"\1" + b[7:], b[:7] + b"\0" + b[8:], b""]).hex()
        elif kind == "kdf":
            q = g.choice([(1, 1, 1), (2, 1, 2), (3, 2, 1), (1, 8, 1), (5, 1, 1)])
            c.update(pw=g.choice(self.pws).hex(), salt=g.randbytes(g.choice([0, 1, 32, 70])).hex(), q=list(q), n=g.choice([1, 32, 64, 65]))
        elif kind == "pass":
            l = g.choice([b"some words", b"x", b"", b"z" * 300, b"y" * 100])
            c.update(m=g.choice(["env", "file", "stdin-once", "tty-stdin"]), twice=g.randrange(2), src=g.choice([l + b"\n", l, l + b"\n" + l + b"\n", l + b"\nno\n" + l + b"\n" + l + b"\n", l + b"\nno\n"]).hex())
            if g.random() < .2:
                c["fail"] = "alloc"
        c["fa"] = g.randrange(1, 7) if c["fail"] == "alloc" else 0
        return c

def params(c):
    return p8(maxmem=0, frac="0.5", time=repr(float(c["time"])), force=c["force"], verbose=c["verbose"],
              **(dict(logN=c["q"][0], r=c["q"][1], p=c["q"][2]) if c["e"] == "enc" and not c["pick"] else {}))

def perform(vh, c, fake):
    e, f = c["e"], c["fail"]
    lim, clk = list(c.get("lim", [])), list(c.get("clk", []))
    if f == "limit":
        lim[c["unbuf"] % 2 * 3] = "E5"
    if f == "clock":
        clk = [0, "E5", "E5", "M5", "M5", "M5"]
    vh.call("lim", *lim)
    vh.call("clock", *clk)
    vh.call("urandom", *(["o5"] * 4 if f == "entropy" else []))
    vh.call("kdf", int(e == "enc"), fake, 1 if f == "kdf" else 0, 0, 1)
    vh.call("trk", 1, c["fa"], 0, 0)
    pw = c.get("pw") or "-"
    rd, wr = (c["at"] if f == "read" else -1), (c["at"] if f == "write" else -1)
    if e in ("enc", "dec"):
        x = c["data" if e == "enc" else "box"] or "-"
        if c["via"] == "buf":
            r = vh.call("buf", 0 if e == "enc" else 1, x, pw, *params(c))
        else:
            r = vh.call("file", 2 if e == "enc" else 3, x, c["chunks"], rd, wr, c["unbuf"], pw, *params(c))
    elif e == "prep":
        r = vh.call("prep", c["k"], c["box"] or "-", c["chunks"], rd, c["unbuf"], pw, *params(c))
    elif e == "copy":
        r = vh.call("copy", c["k"], wr, c["unbuf"])
    elif e == "free":
        r = vh.call("dfree", c["k"])
    elif e == "info":
        r = vh.call("info", c["box"] or "-", c["chunks"], -1, c["unbuf"])
    elif e == "kdf":
        vh.call("kdf", 0, 0, 0, 0, 1)
        r = vh.call("scrypt", 0, pw, c["salt"] or "-", 1 << c["q"][0], c["q"][1], c["q"][2], c["n"])
    elif e == "pass":
        with Scratch() as d:
            src = bytes.fromhex(c["src"])
            if c["m"] == "file":
                open(d + "/pw", "wb").write(src)
            vh.call("stdin", c["src"] or "-")
            vh.call("setenv", b"VAR".hex(), c["src"] or "-")
            r = vh.call("pass", 2, c["m"], {"env": b"VAR".hex(), "file": (d + "/pw").encode().hex()}.get(c["m"], "-"), 0 if c["twice"] else 1)
            vh.call("stdin", "null")
        r["out"] = r.get("pw", "") if r["rc"] == 0 else ""
    # (descriptors of the streams of the harness itself are none)
    vh.call("trk", 0, 0, 0, 0)
    for x in ("lim", "clock", "urandom"):
        vh.call(x)
    fds = vh.call("fds")["fds"]
    rec = {k: v for k, v in c.items() if k not in ("lim", "clk", "chunks", "unbuf", "fa", "time", "verbose")}
    rec.update(rc=r.get("rc", 0), out=r.get("out", ""), oom=r.get("allocfails", 0), live=r["live"], fds=fds, closed=1 - r.get("fclose", 0))
    if e == "enc":
        rec["drawn"] = [x["salt"] for x in r["ev"] if x["e"] == "kdf"]
    if e == "info":
        rec["err"] = bytes.fromhex(r["err"]).decode("latin1")
    if e == "prep" and r["rc"] == 0:
        vh.open.add(c["k"])
        vh.ready.add(c["k"])
    if e in ("copy", "free"):
        vh.ready.discard(c["k"])
    if e == "free":
        vh.open.discard(c["k"])
    return rec

def history(vh, c):
    vh.open, vh.ready = set(), set()
    if c["cpu"]:
        vh.call("cpu", *c["cpu"])
    evs, last = [], None
    for x in c["ops"]:
        # only a handle that was opened is used, and once
        if x["e"] == "free" and x["k"] not in vh.open or x["e"] == "copy" and x["k"] not in vh.ready or x["e"] == "prep" and x["k"] in vh.open:
            continue
        last = perform(vh, x, c["fake"])
        evs.append(last)
        if x.get("warm"):
            evs.append(dict(e="warm", live=last["live"], fds=last["fds"]))
    return dict(fake=c["fake"], ev=evs)

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    worlds = [World(ctx, g, f) for f in (0, 1)]
    for w in worlds:
        # (keys of the containers as they will be derived)
        w.made(scr.make_containers(ctx, [dict(s) for s in w.specs]) if not w.fake else [])
    vh = fw.VH()
    vh.call("kdf", 0, 1, 0, 0, 0)
    w = worlds[1]
    w.boxes = [bytes.fromhex(vh.call("buf", 0, s["data"].hex() or "-", s["pw"].hex() or "-", *p8(logN=s["logN"], r=s["r"], p=s["p"], force=1))["out"]) for s in w.specs]
    vh.close()
    def warm(w):
        out = [w.op(k, 0) for k in ("enc", "dec", "pass", "info", "kdf")]
        out[-1]["warm"] = 1
        return out
    cs = []
    hs = histories(ctx, 3, 2)
    ctx.count("histories_enumerated", len(hs))
    n = ctx.t(1000, len(hs) + 1)
    if len(hs) > n:
        hs = g.sample(hs, n)
    for x in hs:
        w = g.choice(worlds)
        cs.append(dict(fake=w.fake, cpu=g.choice(CPUS), ops=[w.op(k, j) for k, j in x] + [w.op(k, j) for k, j in (("copy", 0), ("free", 0), ("copy", 1), ("free", 1), ("dec", 0), ("enc", 0))]))
    ctx.conform("S23", cs, history, trace=True, fresh=True, make=NoTtyVH, what="all short histories", judge_kw=dict(cfg_text=CFG))
    # long ones
    KINDS = ["enc", "encfail", "dec", "decbad", "decfail", "info", "kdf", "pass", "prep", "prep", "prep", "prepfail", "copy", "copy", "copyfail", "free", "free"]
    cs = []
    for _ in range(ctx.t(32, 150)):
        w = g.choice(worlds)
        cs.append(dict(fake=w.fake, cpu=g.choice(CPUS), ops=warm(w) + [w.op(g.choice(KINDS), g.randrange(6)) for _ in range(ctx.t(250, 1200))] + [w.op(k, j) for j in range(6) for k in ("copy", "free")] + [w.op("enc", 0), w.op("dec", 0)]))
    ctx.conform("S23", cs, history, trace=True, fresh=True, make=NoTtyVH, what="long histories", judge_kw=dict(cfg_text=CFG))
    # the same again and again
    cs = []
    for k in ("enc", "encfail", "dec", "decbad", "decfail", "info", "kdf", "pass", "prepfail", "open"):
        w = g.choice(worlds)
        if k == "open":
            xs = [w.op(j, 0) for _ in range(40) for j in ("prep", "copy", "free")] + [w.op(j, 0) for _ in range(40) for j in ("prep", "free")]
        else:
            one = [w.op(k, 0) for _ in range(6)]
            xs = one * 15
        cs.append(dict(fake=w.fake, cpu=None, ops=warm(w) + xs))
    ctx.conform("S23", cs, history, trace=True, fresh=True, make=NoTtyVH, what="repetitions", judge_kw=dict(cfg_text=CFG))
CFG = "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"
