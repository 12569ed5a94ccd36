"""S08: failing input and output."""
import os, resource, signal, socket
import fw, scr
from scr import make_containers, dec_trace, enc_trace, STREAM_CFG, Scratch, cli
ASSUMPTIONS = ["Java evaluation of the TLA+ crypto operators (checked against the TLA+ definitions on samples every run)",
               "a failing read or write keeps failing"]

def command(vh, c):
    """One run of the command with a fault."""
    data, pw = bytes.fromhex(c["in"]), bytes.fromhex(c["pw"])
    fault, at, how = c["fault"], c["at"], c["how"]
    with Scratch() as d:
        args = [c["op"], "--passphrase", "env:PW"] + (["--logN", "10", "-r", "1", "-p", "1", "-f"] if c["op"] == "enc" else ["-f"]) + c.get("opts", [])
        env = {"PW": os.fsdecode(pw)}
        fin, fout = d + "/in", d + "/out"
        open(fin, "wb").write(data)
        kw = {}
        stdin = b""
        a = [fin, fout]
        delivered = None
        if how == "io":                      # scripted streams
            kw["cmds"] = [["io", fin, at if fault == "rd" else -1, fout, at if fault == "wr" else -1, int(fault == "close")]]
        elif how == "full":                  # a full device
            a = [fin, "/dev/full"]
            delivered = b""
        elif how == "stdoutfull":
            kw["stdout"] = open("/dev/full", "wb")
            a = [fin]
            delivered = b""
        elif how in ("fsize", "stdoutfsize"):         # file-size limit
            def pre():
                signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_FSIZE, (at, at))
            kw["pre"] = pre
            if how == "stdoutfsize":
                kw["stdout"] = open(fout, "wb")
                a = [fin]
        elif how == "dir":                   # a directory as input
            a = [d, fout]
        elif how == "stdindir":
            a = ["-", fout]
            stdin = os.open(d, os.O_RDONLY)
        elif how == "nostdout":              # standard output closed
            kw["closed"] = (1,)
            a = [fin]
            delivered = b""
        elif how == "nostdin":
            kw["closed"] = (0,)
            a = ["-", fout]
        elif how == "reset":                 # a connection that breaks after `at` bytes
            s1, s2 = socket.socketpair()
            s2.setsockopt(socket.SOL_SOCKET, socket.SO_SNDBUF, 1 << 20)
            s2.sendall(data[:at])
            s1.sendall(b"x")
            s2.close()
            stdin = s1
            a = ["-", fout]
        elif how == "epipe":                 # nobody reads the output
            r, w = os.pipe()
            os.close(r)
            kw["pre"] = lambda: signal.signal(signal.SIGPIPE, signal.SIG_IGN)
            kw["stdout"] = w
            a = [fin]
            delivered = b""
        elif how == "stdio":                 # no fault: standard streams
            a = ["-"]
            stdin = data
        r = cli(args + a, stdin=stdin, env=env, **kw)
        if how == "stdio":
            delivered = r.out
        if delivered is None:
            delivered = open(fout, "rb").read() if os.path.exists(fout) else b""
        for f in (kw.get("stdout"), stdin):
            if hasattr(f, "close"):
                f.close()
            elif type(f) is int:
                os.close(f)
    return dict(op=c["op"], pw=c["pw"], fault=fault, at=at, rc=r.rc, out=delivered.hex(), err=r.err.decode("latin1"), **{"in": c["in"]})

def run(ctx):
    g = ctx.rng
    ctx.equiv(("sha", "hmac", "scrypt", "aes", "aesctr"), 1)
    for spec in ("DecAlg", "EncAlg"):
        for blk, ln in ((3, 9), (1, 6)):
            ctx.design(spec, cfg_text="CONSTANTS HeadLen = 2\n SigLen = 2\n Block = %d\n MaxLen = %d\nINIT AInit\nNEXT ANext\nINVARIANT Inv\nPROPERTY Refines\nCHECK_DEADLOCK TRUE\n" % (blk, ln))
    ctx.inductive("EncFull")
    S = lambda n: dict(pw=b"pw", salt=b"s" * 32, logN=1, r=1, p=1, data=g.randbytes(n))
    small = [S(n) for n in (0, 1, 33)]
    big = [S(n) for n in (65535, 65536, 65537, 70000, 131072)]
    bs, bb = make_containers(ctx, small), make_containers(ctx, big)
    hx = lambda b: b.hex()
    dec, enc = [], []
    chunks = lambda: g.choice(["0", "1", "32", "96,1", "1000", "50,47,3"])
    for s, b in zip(small, bs):
        for via in ("file", "prep"):
            for at in range(len(b) + 1):
                for unbuf in (0, 3):
                    dec.append(dict(via=via, box=hx(b), pw=hx(s["pw"]), chunks=chunks(), rderr=at, unbuf=unbuf))
            for at in range(len(s["data"]) + 1):
                for unbuf in range(4):
                    dec.append(dict(via=via, box=hx(b), pw=hx(s["pw"]), chunks=chunks(), wrerr=at, unbuf=unbuf))
                    dec.append(dict(via=via, box=hx(b), pw=hx(s["pw"]), chunks=chunks(), wrerr=at, rderr=g.randrange(len(b) + 1), unbuf=unbuf))
    for s in small:
        n = len(s["data"])
        for at in range(n + 129):
            for unbuf in (0, 2):
                enc.append(dict(data=hx(s["data"]), pw=hx(s["pw"]), chunks=chunks(), wrerr=at, unbuf=unbuf, q=[1, 1, 1]))
        for at in range(n + 1):
            for unbuf in range(4):
                enc.append(dict(data=hx(s["data"]), pw=hx(s["pw"]), chunks=chunks(), rderr=at, unbuf=unbuf, q=[1, 1, 1]))
                enc.append(dict(data=hx(s["data"]), pw=hx(s["pw"]), chunks=chunks(), rderr=at, wrerr=g.randrange(n + 129), unbuf=unbuf, q=[1, 1, 1]))
    BC = ["0", "4096", "65536", "65568", "8191", "65535,1,2"]
    for s, b in zip(big, bb):
        n = len(s["data"])
        edge = [0, 95, 96, 4095, 4096, 65535, 65536, 65567, 65568, 65631, 65632, 65663, 65664, 65665, n // 2, n - 1, n, n + 31, n + 95, n + 96, n + 127, n + 128]
        for at in g.sample(edge, ctx.t(8, len(edge))):
            for unbuf in (0, 2):
                if at <= n + 128:
                    dec.append(dict(via=g.choice(["file", "prep"]), box=hx(b), pw=hx(s["pw"]), chunks=g.choice(BC), rderr=at, unbuf=unbuf))
                    enc.append(dict(data=hx(s["data"]), pw=hx(s["pw"]), chunks=g.choice(BC), wrerr=at, unbuf=unbuf, q=[1, 1, 1]))
                if at <= n:
                    dec.append(dict(via=g.choice(["file", "prep"]), box=hx(b), pw=hx(s["pw"]), chunks=g.choice(BC), wrerr=at, unbuf=unbuf))
                    enc.append(dict(data=hx(s["data"]), pw=hx(s["pw"]), chunks=g.choice(BC), rderr=at, unbuf=unbuf, q=[1, 1, 1]))
    kw = dict(trace=True, judge_kw=dict(cfg_text=STREAM_CFG))
    ctx.conform("DecTrace", dec, dec_trace, what="dec", **kw)
    ctx.conform("EncTrace", enc, enc_trace, what="enc", **kw)
    # the command
    ks = []
    for n in (0, 1, 40, 5000, 65536, 70000):
        s = S(n)
        b = make_containers(ctx, [s])[0]
        for op, data in (("enc", s["data"]), ("dec", b)):
            want = n + 128 if op == "enc" else n
            def add(how, fault, at=0):
                ks.append({"op": op, "in": hx(data), "pw": hx(s["pw"]), "how": how, "fault": fault, "at": at, "opts": g.choice([[], ["-v"]]) if fault != "none" else []})
            pts = lambda m: sorted({0, 1, 95, 96, 127, 4095, 4096, 8192, m // 2, m - 33, m - 32, m - 1, m} & set(range(m + 1)))
            for at in g.sample(pts(len(data)), min(ctx.t(5, 99), len(pts(len(data))))):
                add("io", "rd", at)
                if at > 0:
                    add("reset", "rd", at)
            for at in g.sample(pts(want), min(ctx.t(5, 99), len(pts(want)))):
                add("io", "wr", at)
                add("fsize", "wr", at)
                add("stdoutfsize", "wr", at)
            for how in ("io",):
                add(how, "close")
                add(how, "none")
            add("stdio", "none")
            add("full", "wr")
            add("stdoutfull", "wr")
            add("nostdout", "wr")
            add("epipe", "wr")
            for how in ("dir", "stdindir", "nostdin"):
                add(how, "rd")
    ctx.conform("S08", ks, command, what="command")
