"""S22: secrets are erased and memory is released, on every path."""
import json, os, time
import fw, scr, tlc as T
from scr import H, p8, cli, Scratch, limbs
from S09 import clock
from S14 import TtyVH, NoTtyVH
ASSUMPTIONS = ["a secret counts as left where eight bytes of it are",
               "memory of the C library (its stream buffers) and of the system (environment) is not the program's; working arrays of the key derivation are not among what is listed",
               "stack contents are those after the compiler used here"]
PW = b"correct horse battery staple 42"
DK = bytes((0x80 ^ (i * 37 + 11)) & 255 for i in range(64))

def secrets(ctx, xs):
    src = os.path.join(ctx.tmp, "sec-%d.ndjson" % time.time_ns())
    dst = src + ".out"
    T.write_ndjson(src, xs)
    ctx.design("Secrets", cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"CASES": src, "OUT": dst}, workers=1)
    return [json.loads(l) for l in open(dst)]

def needles(s, pw=PW):
    return ["needles", pw.hex(), s["dk"], "~", s["words"], s["swapped"]] + [s["stream"][k:k + 32] for k in range(0, len(s["stream"]), 32)][:50]

KEEP = ("alloc", "free", "allocfail")
def only(ev):
    return [e for e in ev if e["e"] in KEEP]

def lib(vh, c):
    """One library operation, or a two-step one."""
    if c["cpu"]:
        vh.call("cpu", *c["cpu"])
    vh.call("trk", 0, 0, 0, 0)
    vh.call("lim", *c.get("lim", []))
    vh.call(*c.get("clk", ["clock"]))
    vh.call("urandom", *c.get("rnd", []))
    vh.call(*c["needles"])
    vh.call("stackscan", 1)
    vh.call("kdf", 0, c["fake"], c.get("kfail", 0), 0, 1)
    pw, q = c.get("pw", PW.hex()), c["q"]
    ev, rcs = [], []
    def did(r, keep=None):
        ev.extend(only(r["ev"]))
        rcs.append(r.get("rc", 0))
        if keep is None:
            ev.append(dict(e="end", live=r["live"], stack=r["stackdirty"]))
        else:
            ev.append(dict(e="step", keep=keep, stack=r["stackdirty"]))
    fa = [1, c["fa"], c["ff"], 0]
    vh.call("trk", *fa)
    if c["op"] in ("ebuf", "dbuf"):
        did(vh.call("buf", 0 if c["op"] == "ebuf" else 1, c["data"] or "-", pw, *q))
    elif c["op"] in ("efile", "dfile"):
        did(vh.call("file", 2 if c["op"] == "efile" else 3, c["data"] or "-", "0", c["rderr"], c["wrerr"], c["unbuf"], pw, *q))
    elif c["op"] == "two":
        r = vh.call("prep", 1, c["data"] or "-", "0", c["rderr"], c["unbuf"], pw, *q)
        if r["rc"]:
            did(r)
        else:
            n = r["live"]
            did(r, keep=n)
            if c["wrerr"] != -2:     # not abandoned
                if c["fa"]:
                    vh.call("trk", 1, c["fa2"], 0, 0)
                did(vh.call("copy", 1, c["wrerr"], c["unbuf"]), keep=n)
            did(vh.call("dfree", 1))
    vh.call("trk", 0, 0, 0, 0)
    vh.call("needles")
    vh.call("stackscan", 0)
    vh.call("kdf", 0, 0, 0, 0, 0)
    vh.call("urandom")
    vh.call("clock")
    vh.call("lim")
    return dict(ev=ev, rc=rcs)

def entry(vh, c):
    """Passphrase entry."""
    with Scratch() as d:
        tty = getattr(vh, "tty", None)
        if tty:
            tty.clear()
            if c["typed"] is not None:
                tty.type(bytes.fromhex(c["typed"]))
        vh.call("stdin", c["stdin"] or "-")
        if c["file"]:
            open(d + "/pw", "wb").write(bytes.fromhex(c["file"]))
            if c["at"] >= 0:
                vh.call("io", d + "/pw", c["at"], d + "/none", -1, 0)
        vh.call("setenv", b"VAR".hex(), c["var"] or "~")
        vh.call("needles", *c["needles"])
        vh.call("stackscan", 1)
        vh.call("pfault", *c["fault"])
        vh.call("trk", 1, c["fa"], 0, 0)
        arg = {"env": b"VAR", "file": (d + "/pw").encode()}.get(c["m"], b"")
        r = vh.call("pass", 2, c["m"], arg.hex() or "-", c["once"])
        vh.call("trk", 0, 0, 0, 0)
        vh.call("pfault", 0, 0, 0)
        vh.call("needles")
        vh.call("stackscan", 0)
        vh.call("io")
        vh.call("stdin", "null")
    ev = only(r["ev"][:[e["e"] for e in r["ev"]].index("ret")])
    # the passphrase is handed over, and released by the caller
    ev.append(dict(e="step", keep=1 if r["rc"] == 0 else 0, stack=r["stackdirty"]))
    if r["rc"] == 0:
        last = [e["id"] for e in ev if e["e"] == "alloc"][-1]
        ev.append(dict(e="free", id=last, dirty=0))
    ev.append(dict(e="end", live=0, stack=0))
    return dict(ev=ev, rc=r["rc"])

def command(vh, c):
    with Scratch() as d:
        open(d + "/in", "wb").write(bytes.fromhex(c["data"]))
        open(d + "/pw", "wb").write(PW + b"\n")
        cmds = [c["needles"], ["kdf", 0, c["fake"], c["kfail"], 0, 1], ["trk", 1, c["fa"], c["ff"], 0]]
        if c["io"]:
            cmds.insert(0, ["io", d + "/in", c["io"][0], d + "/out", c["io"][1], c["io"][2]])
        if c["rnd"]:
            cmds.insert(0, ["urandom"] + c["rnd"])
        r = cli([a.replace("@", d) for a in c["args"]], stdin=bytes.fromhex(c["stdin"]), env={"VAR": PW.decode()}, cwd=d, cmds=[[x.replace("@", d) if isinstance(x, str) else x for x in q] for q in cmds])
        if r.rep is None:
            raise fw.VHDied("the command died: %s %s" % (r.rc, r.err[:500]))
    return dict(ev=only(r.ev) + [dict(e="end", live=r.rep["live"], stack=0)], rc=r.rc)

def run(ctx):
    g = ctx.rng
    data = bytes((7 * i + 1) & 255 or 1 for i in range(700))
    def real_box(n):
        return scr.make_containers(ctx, [dict(pw=PW, salt=bytes(range(32)), logN=2, r=1, p=1, data=data[:n])])[0]
    boxes = {n: real_box(n) for n in (0, 5, 100, 512, 700)}
    sec = secrets(ctx, [dict(dk=DK.hex(), pw="", salt="", logN=1, r=1, p=1, n=704),
                        dict(dk="", pw=PW.hex(), salt=bytes(range(32)).hex(), logN=2, r=1, p=1, n=704)])
    nf, nr = needles(sec[0]), needles(sec[1])
    # containers under the known key
    vh = fw.VH()
    vh.call("kdf", 0, 2, 0, 0, 0)
    fboxes = {n: bytes.fromhex(vh.call("buf", 0, data[:n].hex() or "-", PW.hex(), *p8(logN=20, r=8, p=1, force=1))["out"]) for n in (0, 5, 100, 512, 700)}
    vh.close()
    qe, qd = p8(logN=14, r=8, p=1, force=1), p8(force=1)
    base = []
    def add(op, **k):
        base.append(dict(dict(op=op, rderr=-1, wrerr=-1, unbuf=0, cpu=[], fa=0, ff=0, fa2=0, fake=2, needles=nf, q=qe if op[0] == "e" else qd), **k))
    small = dict(lim=["lim", "inf", "inf", "inf", 1 << 24, 1, 4096, 1 << 12], clk=clock(4, 1))
    for n in (0, 5, 100, 512, 700):
        x = data[:n].hex()
        for op in ("ebuf", "efile"):
            add(op, data=x)
            add(op, data=x, q=p8(frac="0.5", time="1"), **small)
            add(op, data=x, kfail=1)
            add(op, data=x, rnd=["o5"], fresh=1)
            add(op, data=x, rnd=["d" + "11" * 20, "e5"], fresh=1)
        for b, fake, nd in ((fboxes[n], 2, nf), (boxes[n], 0, nr)):
            for op in ("dbuf", "dfile", "two"):
                add(op, data=b.hex(), fake=fake, needles=nd)
                add(op, data=b.hex(), fake=fake, needles=nd, kfail=1)
                add(op, data=b.hex(), fake=fake, needles=nd, q=p8(frac="0.5", time="1"), **small)
                for at in (3, 60, 70, 100, len(b) - 40, len(b) - 1):     # altered
                    add(op, data=(b[:at] + bytes([b[at] ^ 1]) + b[at + 1:]).hex(), fake=fake, needles=nd)
                for at in (0, 6, 50, 96, 127, len(b) - 1):     # cut
                    add(op, data=b[:at].hex(), fake=fake, needles=nd)
                if fake == 0:
                    add(op, data=b.hex(), fake=0, needles=nr, pw=(PW + b"x").hex())
        for op, m, y in (("efile", n, x), ("dfile", n + 128, boxes[n].hex()), ("two", n + 128, boxes[n].hex())):
            k = dict(fake=0, needles=nr) if op != "efile" else {}
            for at in sorted({0, 3, 7, 50, 96, 128, m // 2, m}):
                if at <= m:
                    add(op, data=y, rderr=at, unbuf=g.randrange(4), **k)
            for at in sorted({0, 1, 96, 97, n // 2, n, n + 96, n + 100}):
                add(op, data=y, wrerr=at, unbuf=2, **k)
                add(op, data=y, wrerr=at, unbuf=g.randrange(4), **k)
        add("two", data=boxes[n].hex(), fake=0, needles=nr, wrerr=-2)
    cases = []
    for c in base:
        cases.append(c)
    # every allocation failing, alone and with all that follow
    for c in g.sample(base, min(len(base), ctx.t(250, 2000))):
        for k in range(1, 8):
            cases.append(dict(c, fa=k, fa2=g.randrange(5)))
        cases.append(dict(c, ff=g.randrange(1, 6)))
    late = [c for c in cases if not c.get("fresh")]
    early = [dict(c, cpu=cpu) for c in g.sample(cases, ctx.t(250, 3000)) for cpu in ([], [0, 0, 0, 0, 0])]
    early += [dict(c, cpu=cpu) for c in base[:12] for cpu in ([], [0, 0, 0, 0, 0])]
    ctx.conform("S22", late, lib, trace=True, what="library, with AES instructions", make=lambda: setup(1))
    ctx.conform("S22", late, lib, trace=True, what="library, without", make=lambda: setup(0))
    ctx.conform("S22", early, lib, trace=True, what="library, first use", fresh=True)
    # passphrase entry
    es = []
    other = b"another passphrase entirely"
    third = b"something else that was typed"
    nd = [PW.hex(), other.hex(), third.hex()]
    lines = {"ok": PW + b"\n" + PW + b"\n", "retry": other + b"\n" + third + b"\n" + PW + b"\n" + PW + b"\n", "eof": PW + b"\n", "half": PW + b"\n" + other, "mism": PW + b"\n" + other + b"\n", "one": PW, "long": other + b"\n" + third + b"\n" + PW + b"\n" + third + b"\n", "none": b"", "crlf": PW + b"\r\n" + PW + b"\r\n"}
    b0 = dict(typed=None, stdin="", file="", var="", at=-1, fault=(0, 0, 0), fa=0, once=0, needles=nd)
    nt = []
    for w, s in lines.items():
        for once in (0, 1):
            for fa in range(4):
                es.append(dict(b0, m="tty-stdin", typed=s.hex(), once=once, fa=fa))
                es.append(dict(b0, m="tty-once", typed=s.hex(), once=once, fa=fa))
                nt.append(dict(b0, m="tty-stdin", stdin=s.hex(), once=once, fa=fa))
                nt.append(dict(b0, m="stdin-once", stdin=s.hex(), once=once, fa=fa))
                nt.append(dict(b0, m="file", file=s.hex() or "0a", once=once, fa=fa))
                nt.append(dict(b0, m="env", var=s.hex(), once=once, fa=fa))
                for at in (0, 5, 20, len(PW), len(PW) + 1):
                    if at <= len(s):
                        nt.append(dict(b0, m="file", file=s.hex() or "0a", at=at, once=once, fa=fa))
                for f in ((1, 0, 0), (0, 1, 0), (0, 2, 0), (0, 0, 1)):
                    es.append(dict(b0, m="tty-stdin", typed=s.hex(), once=once, fa=fa, fault=f))
    big = bytes(33 + i % 90 for i in range(3000))
    for k in (2046, 2047, 2048, 3000):
        for m in ("file", "stdin-once", "tty-stdin"):
            nt.append(dict(b0, m=m, stdin=big[:k].hex() + "0a" + big[:k].hex() + "0a", file=big[:k].hex() + "0a", needles=[big[:60].hex(), big[1000:1060].hex(), big[1980:2040].hex()]))
    ctx.conform("S22", es, entry, trace=True, what="passphrase entry at a terminal", make=lambda: TtyVH())
    ctx.conform("S22", nt, entry, trace=True, what="passphrase entry", make=lambda: NoTtyVH())
    # the command
    cs = []
    for dec in (0, 1):
        for n in (0, 100, 700):
            x = boxes[n].hex() if dec else data[:n].hex()
            fake, nd = (0, nr) if dec else (2, nf)
            for how in (["--passphrase", "env:VAR"], ["--passphrase", "file:pw"], ["--passphrase", "dev:stdin-once"], []):
                for out in ([], ["@/out"]):
                    c = dict(args=[("dec" if dec else "enc"), "-f"] + ([] if dec else ["--logN", "14", "-r", "8", "-p", "1"]) + how + ["@/in"] + out, data=x, stdin=(PW + b"\n" + PW + b"\n").hex(), fake=fake, needles=nd, kfail=0, fa=0, ff=0, io=None, rnd=None)
                    cs.append(c)
                    for k in range(1, 8):
                        cs.append(dict(c, fa=k))
                    cs.append(dict(c, kfail=1))
                    cs.append(dict(c, rnd=["o5"]))
                    for at in (0, 50, 96, n):
                        cs.append(dict(c, io=[at, -1, 0]))
                        cs.append(dict(c, io=[-1, at, 0]))
                    cs.append(dict(c, io=[-1, -1, 1]))
                    if dec:
                        at = g.randrange(len(x) // 2)
                        b = bytes.fromhex(x)
                        cs.append(dict(c, data=(b[:at] + bytes([b[at] ^ 1]) + b[at + 1:]).hex()))
                        cs.append(dict(c, data=x[:2 * at]))
                    cs.append(dict(c, args=c["args"][:-1] + ["@/nodir/x"]))
    if not ctx.thorough:
        cs = g.sample(cs, 500)
    for c in cs:
        c["args"] = list(c["args"])
    ctx.conform("S22", cs, command, trace=True, what="command", make=lambda: None)

def setup(aes):
    vh = fw.VH()
    vh.call("cpu", aes, aes, aes, aes, aes)
    # not the first use
    vh.call("buf", 0, "00", "00", *p8(logN=1, r=1, p=1, force=1))
    return vh
