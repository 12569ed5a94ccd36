"""What the checks of the encryption interfaces and of the command share."""
import fcntl, hashlib, threading, os, select, shutil, signal, subprocess, tempfile, time
import fw, vbuild, tlc as T

def limbs(x):
    r = []
    while x:
        r.append(x & 32767)
        x >>= 15
    return r

H = lambda b: b.hex() if b else "-"      # harness argument
def p8(maxmem=0, frac="0.125", time="5", logN=0, r=0, p=0, verbose=0, force=0):
    return [str(maxmem), str(frac), str(time), str(logN), str(r), str(p), str(verbose), str(force)]
FORCE = dict(force=1, mem=[], num=[], den=[])

def budget(mem, num, den=1):
    return dict(force=0, mem=limbs(mem), num=limbs(num), den=limbs(den))

def make_containers(ctx, specs):
    """Containers as the TLA+ specification writes them.  specs: dicts pw salt
    (bytes) logN r p data (bytes)."""
    out = []
    for k in range(0, len(specs), 4000):
        src = os.path.join(ctx.tmp, "mk-%d.ndjson" % time.time_ns())
        dst = src + ".out"
        T.write_ndjson(src, [dict(s, pw=s["pw"].hex(), salt=s["salt"].hex(), data=s["data"].hex()) for s in specs[k:k + 4000]])
        ctx.design("MakeContainers", cfg_text="INIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n", env={"CASES": src, "OUT": dst}, workers=1)
        import json
        out += [bytes.fromhex(json.loads(l)["box"]) for l in open(dst)]
        os.unlink(src)
        os.unlink(dst)
    ctx.count("containers_generated_by_specification", len(specs))
    return out

# ---- the command ----
CAP = 1 << 28
class Run:
    hung = False

def cli(args, stdin=b"", env=None, cwd=None, variant="plain", exe="cli", timeout=100, pre=None, feed=None, newsession=True,
        closed=(), stdout=None, stderr=None, argv0=None, cmds=None):
    """Runs the command without a controlling terminal (newsession).  cmds:
    harness commands, for the command in a scripted environment; r.ev then has
    its events, r.rep what else was reported."""
    d = vbuild.build(variant)
    if cmds is not None:
        ef = tempfile.TemporaryFile()
        os.set_inheritable(ef.fileno(), True)
        env = dict(env or {}, VP_CMDS=";".join(" ".join(str(y) for y in x) if not isinstance(x, str) else x for x in cmds), VP_FD="150")
        exe, pre0 = "vh", pre
        def pre():
            os.dup2(ef.fileno(), 150)
            if pre0:
                pre0()
    e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "ASAN_OPTIONS": "detect_leaks=0:allocator_may_return_null=1"}
    e.update(env or {})
    def prep():
        if newsession:
            os.setsid()
        signal.signal(signal.SIGPIPE, signal.SIG_DFL)
        for fd in closed:
            os.close(fd)
        if pre:
            pre()
    a = [os.fsencode(x) if isinstance(x, str) else x for x in args]
    fin = subprocess.PIPE if isinstance(stdin, (bytes, type(None))) and stdin is not None else (stdin if stdin is not None else subprocess.DEVNULL)
    p = subprocess.Popen([os.fsencode(argv0 or "scrypt")] + a, executable=os.path.join(d, exe), stdin=fin,
                         stdout=stdout if stdout is not None else subprocess.PIPE,
                         stderr=stderr if stderr is not None else subprocess.PIPE, env=e, cwd=cwd, preexec_fn=prep, close_fds=cmds is None)
    r = Run()
    if Run.hung:            # not to wait for each of many that hang
        timeout = min(timeout, 15)
    r.hang = 0
    def write():
        try:
            for part in feed if feed is not None else [stdin]:
                if isinstance(part, float):
                    time.sleep(part)
                else:
                    p.stdin.write(part)
                    p.stdin.flush()
            p.stdin.close()
        except OSError:
            try:
                p.stdin.close()
            except OSError:
                pass
    got = {}
    def read(k, f):
        b = []
        n = 0
        while True:
            x = os.read(f.fileno(), 1 << 20)
            if not x:
                break
            if n < CAP:
                b.append(x)
                n += len(x)
            else:           # without end
                r.hang = 1
                p.kill()
        got[k] = b"".join(b)
    ts = [threading.Thread(target=read, args=(k, f)) for k, f in (("o", p.stdout), ("e", p.stderr)) if f is not None]
    if fin is subprocess.PIPE:
        ts.append(threading.Thread(target=write))
    for t in ts:
        t.start()
    try:
        p.wait(timeout)
    except subprocess.TimeoutExpired:
        r.hang = 1
        p.kill()
        p.wait()
    for t in ts:
        t.join()
    for f in (p.stdin, p.stdout, p.stderr):
        if f is not None and not f.closed:
            f.close()
    r.rc, r.out, r.err = p.returncode, got.get("o", b""), got.get("e", b"")
    if r.hang:
        Run.hung = True
        r.rc, r.out, r.err = -1000, b"", b""
    if cmds is not None:
        import json
        ef.seek(0)
        t = ef.read()
        ef.close()
        r.rep = json.loads(t) if t else None
        r.ev = r.rep["ev"] if r.rep else None
    return r

class Scratch:
    """A scratch directory of its own."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="vps-")
        return self.d
    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)

KEEP = ("rd", "wr", "kdf", "prep", "ret", "close")
def events(r):
    """The events of a call on streams that the specification is about."""
    out = []
    for e in r["ev"]:
        if e["e"] == "kdf":
            e = dict(e, N=limbs(e["N"]), r=limbs(e["r"]), p=limbs(e["p"]))
        if e["e"] in KEEP:
            out.append(e)
    return out

STREAM_CFG = "CONSTANTS HeadLen = 96\n SigLen = 32\nINIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n"

def dec_trace(vh, c):
    """Streaming decryption (c: box pw chunks rderr wrerr unbuf via(file|prep) lim q setup) as a
    record for DecTrace."""
    for s in c.get("setup", ()):
        vh.call(*s)
    vh.call("kdf", 1, c.get("kdffake", 0), 0, 0, 1)
    q = c.get("p8") or p8(force=1)
    if c["via"] == "file":
        r = vh.call("file", 3, c["box"] or "-", c["chunks"], c.get("rderr", -1), c.get("wrerr", -1), c["unbuf"], c["pw"] or "-", *q)
        ev = events(r)
    else:
        r = vh.call("prep", 1, c["box"] or "-", c["chunks"], c.get("rderr", -1), c["unbuf"], c["pw"] or "-", *q)
        ev = events(r)
        if r["rc"] == 0:
            r = vh.call("copy", 1, c.get("wrerr", -1), c["unbuf"])
            ev += events(r)
            vh.call("dfree", 1)
    vh.call("kdf", 0, 0, 0, 0, 0)
    for s in c.get("after", ()):
        vh.call(*s)
    return dict(pw=c["pw"], lim=c.get("lim", FORCE), ev=ev, cli=0, **{"in": c["box"]})

def enc_trace(vh, c):
    """Streaming encryption (c: data pw chunks rderr wrerr unbuf q) as a record for EncTrace."""
    vh.call("kdf", 1, 0, 0, 0, 1)
    r = vh.call("file", 2, c["data"] or "-", c["chunks"], c.get("rderr", -1), c.get("wrerr", -1), c["unbuf"], c["pw"] or "-",
                *p8(logN=c["q"][0], r=c["q"][1], p=c["q"][2], force=1))
    vh.call("kdf", 0, 0, 0, 0, 0)
    return dict(pw=c["pw"], q=c["q"], ev=events(r), **{"in": c["data"]})

def dec_cli_trace(vh, c):
    """The command decrypting standard input that arrives bit by bit (c: box
    pw cuts), as a record for DecTrace: what has been fed, what has come out."""
    d = vbuild.build("plain")
    box = bytes.fromhex(c["box"])
    ev = []
    p = subprocess.Popen(["scrypt", "dec", "--passphrase", "env:PW", "-f", "-"], executable=os.path.join(d, "cli"), stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, env={"PW": os.fsdecode(bytes.fromhex(c["pw"])), "PATH": "/usr/bin:/bin"}, bufsize=0)
    fd = p.stdout.fileno()
    import fcntl
    fcntl.fcntl(p.stdin.fileno(), 1031, 1 << 20)
    def take(wait):
        got = b""
        while select.select([fd], [], [], wait)[0]:
            x = os.read(fd, 1 << 20)
            if not x:
                break
            got += x
        if got:
            ev.append(dict(e="wr", data=got.hex(), ok=1))
    pos = 0
    for cut in c["cuts"] + [len(box)]:
        cut = min(cut, len(box))
        if cut <= pos:
            continue
        try:
            os.write(p.stdin.fileno(), box[pos:cut])
        except OSError:
            break
        ev.append(dict(e="rd", n=cut - pos))
        pos = cut
        take(.03)
    else:
        ev.append(dict(e="rd", n=0))
    p.stdin.close()
    try:
        rc = p.wait(60)
    except subprocess.TimeoutExpired:
        p.kill()
        rc = -1000
    take(0)
    p.stdout.close()
    p.stderr.close()
    ev.append(dict(e="exit", rc=rc))
    return dict(pw=c["pw"], lim=FORCE, ev=ev, cli=1, **{"in": c["box"]})

def memavailable():
    for x in open("/proc/meminfo"):
        if x.startswith("MemAvailable"):
            return int(x.split()[1]) << 10
    return 0

def huge(vh, c):
    """Encrypts and decrypts c["n"] zero bytes, as buffers or by the command."""
    if c["via"] == "cli":
        return hugecli(c)
    if memavailable() < 3 * c["n"]:
        return hugecli(c)
    if c.get("cpu"):
        vh.call("cpu", *c["cpu"])
    q = c["q"]
    r = vh.call("huge", c["n"], c["pw"], *p8(logN=q[0], r=q[1], p=q[2], force=1), *c.get("alter", []), timeout=600)
    if r.get("unable"):
        return hugecli(c)
    return dict(what=c["what"], pw=c["pw"], q=q, n=[c["n"] >> 20, c["n"] & 0xfffff], enc=r["enc"], head=r["head"], tail=r["tail"], sha=r["sha"], dec=r["dec"], outlen=r["outlen"],
                sha2=r["sha2"], altered=r["altered"])

def hugecli(c):
    """scrypt enc | scrypt dec, of zero bytes; for "altered", one byte changes
    on the way."""
    exe = os.path.join(vbuild.build("plain"), "cli")
    q = c["q"]
    env = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "PW": os.fsdecode(bytes.fromhex(c["pw"]))}
    P = subprocess.PIPE
    total = c["n"] + 128
    alter = [a % total for a in c.get("alter", [])]
    enc = subprocess.Popen([exe, "enc", "--logN", str(q[0]), "-r", str(q[1]), "-p", str(q[2]), "--passphrase", "env:PW", "-"], stdin=P, stdout=P, stderr=subprocess.DEVNULL, env=env)
    dec = subprocess.Popen([exe, "dec", "-f", "--passphrase", "env:PW", "-"], stdin=P, stdout=P, stderr=subprocess.DEVNULL, env=env)
    for f in (enc.stdin, enc.stdout, dec.stdin, dec.stdout):
        fcntl.fcntl(f.fileno(), 1031, 1 << 20)      # F_SETPIPE_SZ
    res = {}
    def source():
        z = bytes(1 << 20)
        left = c["n"]
        try:
            while left > 0:
                left -= os.write(enc.stdin.fileno(), z[:left] if left < len(z) else z)
        except OSError:
            pass
        enc.stdin.close()
    def relay():
        h = hashlib.sha256()
        head = tail = b""
        at = 0
        up = True
        while True:
            x = os.read(enc.stdout.fileno(), 1 << 20)
            if not x or at > total + (1 << 24):
                break
            h.update(x)
            if at < 96:
                head = (head + x)[:96]
            tail = (tail + x)[-32:] if len(x) < 32 else x[-32:]
            for a in alter:
                if at <= a < at + len(x):
                    x = x[:a - at] + bytes([x[a - at] ^ 16]) + x[a - at + 1:]
            at += len(x)
            while up and x:
                try:
                    x = x[os.write(dec.stdin.fileno(), x):]
                except OSError:
                    up = False
        enc.stdout.close()
        dec.stdin.close()
        res.update(head=head.hex(), tail=tail.hex(), sha=h.hexdigest())
    def sink():
        h = hashlib.sha256()
        n = 0
        while True:
            x = os.read(dec.stdout.fileno(), 1 << 20)
            if not x or n > total + (1 << 24):
                break
            h.update(x)
            n += len(x)
        dec.stdout.close()
        res.update(outlen=[n >> 20, n & 0xfffff], sha2=h.hexdigest())
    ts = [threading.Thread(target=f) for f in (source, relay, sink)]
    for t in ts:
        t.start()
    end = time.time() + 600
    for t in ts:
        t.join(max(1, end - time.time()))
        if t.is_alive():
            enc.kill()
            dec.kill()
    for t in ts:
        t.join()
    rc = [enc.wait(), dec.wait()]
    return dict(what=c["what"], pw=c["pw"], q=q, n=[c["n"] >> 20, c["n"] & 0xfffff], enc=rc[0], head=res["head"], tail=res["tail"], sha=res["sha"], dec=7 if rc[1] == 1 else rc[1], outlen=res["outlen"],
                sha2=res["sha2"], altered=[7 if rc[1] == 1 else rc[1]] if alter else [])

def hugeconform(ctx, what):
    """Sizes beyond 32 bits (Huge.tla)."""
    g = ctx.rng
    cs = []
    for via in ("cli", "buf"):
        for k in range(ctx.t(1, 2)):
            n = (1 << 32) + (g.choice([0, 1, 31, 65535, 1 << 20]) if k else g.randrange(1, 100000))
            c = dict(what=what, via=via, n=n, pw=b"huge".hex(), q=[10, 1, 1])
            if what == "altered":
                c["alter"] = [g.choice([-1, -32, -33, -100, 97, 1 << 32, (1 << 32) - 1, n // 2])]
                if via == "buf":
                    c["alter"] += [-33, (1 << 32) + 95][:ctx.t(1, 2)]
            cs.append(c)
    ctx.equiv(("zeros",), 1)
    ctx.conform("Huge", cs, huge, nproc=1, fresh=True, what="sizes beyond 32 bits")
