"""S14: passphrases from terminal, standard input, environment and files."""
import fcntl, os, pty, signal, termios, threading, time
import fw, scr
from scr import H, cli, Scratch, p8
from S09 import box_for
ASSUMPTIONS = ["no NUL characters in passphrases; a lone carriage return ends a passphrase like a line terminator",
               "characters the terminal itself interprets (interrupt, erase, ...) are not typed",
               "lines beyond 2047 characters on standard input are read in pieces (as documented for S14)"]

class Tty:
    """A pseudo-terminal whose input is what the program reads, byte for byte."""
    def __init__(self):
        self.m, self.s = pty.openpty()
        self.seen = b""     # what the terminal shows
        self.name = os.ttyname(self.s)
        t = termios.tcgetattr(self.s)
        t[0] &= ~(termios.ICRNL | termios.IXON | termios.INLCR | termios.IGNCR | termios.ISTRIP | termios.IUTF8 if hasattr(termios, "IUTF8") else termios.ICRNL | termios.IXON)
        t[3] &= ~termios.IEXTEN
        termios.tcsetattr(self.s, termios.TCSANOW, t)
        self.initial = termios.tcgetattr(self.s)
        threading.Thread(target=self.drain, daemon=True).start()
    def drain(self):
        try:
            while True:
                x = os.read(self.m, 65536)
                if not x:
                    break
                self.seen += x
        except OSError:
            pass
    def clear(self):
        termios.tcflush(self.s, termios.TCIFLUSH)
    def type(self, b):
        """What ends without a line feed, or is empty, ends the input (^D)."""
        b += b"\x04" if b.endswith(b"\n") or not b else b"\x04\x04"
        t = threading.Thread(target=self._w, args=(b,), daemon=True)
        t.start()
        if len(b) < 3000:
            t.join()
    def _w(self, b):
        while b:
            b = b[os.write(self.m, b[:500]):]
    def close(self):
        os.close(self.s)
        os.close(self.m)

class TtyVH(fw.VH):
    """A harness process with a controlling terminal of its own."""
    def __init__(self, variant="plain"):
        self.tty = Tty()
        super().__init__(variant)
        assert self.call("ctty", self.tty.name)["ctty"] == 0
    def close(self):
        super().close()
        self.tty.close()

class NoTtyVH(fw.VH):
    def __init__(self, variant="plain"):
        super().__init__(variant, pre=os.setsid)

def lib(vh, c):
    with Scratch() as d:
        path = d + "/pw"
        typed = getattr(vh, "tty", None)
        if typed:
            typed.clear()
            if c["tty"] != "-":
                typed.type(bytes.fromhex(c["tty"]))
        if c["sttty"]:
            vh.call("stdin", "tty")
        else:
            vh.call("stdin", "dir" if c["stdin"] == "!" else (c["stdin"] or "-"))
        if c["file"] == "!":
            if c["at"] < 0:
                os.mkdir(path)
            else:
                open(path, "wb").write(bytes.fromhex(c["full"]))
                vh.call("io", path, c["at"], d + "/none", -1, 0)
        elif c["file"] != "-":
            open(path, "wb").write(bytes.fromhex(c["file"]))
        vh.call("setenv", b"VAR".hex(), "~" if c["var"] == "-" else (c["var"] or "-"))
        arg = {"env": b"VAR", "file": path.encode()}.get(c["m"], b"")
        r = vh.call("pass", 2, c["m"], arg.hex() or "-", 0 if c["confirm"] else 1)
        vh.call("io")
        vh.call("stdin", "null")
    return dict(m=c["m"], confirm=c["confirm"], tty=c["tty"], stdin=c["stdin"] if not c["sttty"] else c["tty"], sttty=c["sttty"], file=c["file"], var=c["var"], ok=int(r["rc"] == 0), pw=r.get("pw", ""),
                err=bytes.fromhex(r["err"]).decode("latin1"), chkerr=1, rest="?", p1="PROMPT1", p2="PROMPT2")

METHOD = {"tty-stdin": "dev:tty-stdin", "stdin-once": "dev:stdin-once", "tty-once": "dev:tty-once"}
def command(vh, c):
    with Scratch() as d:
        path = d + "/pw"
        dec = not c["confirm"]
        stdin = b"" if c["stdin"] == "-" else bytes.fromhex(c["stdin"])
        data = b"some data"
        box = box_for(1, 1, 1)
        open(d + "/in", "wb").write(box if dec else data)
        if c["file"] == "!":
            os.mkdir(path)
        elif c["file"] != "-":
            open(path, "wb").write(bytes.fromhex(c["file"]))
        arg = METHOD.get(c["m"]) or {"env": "env:VAR", "file": "file:" + path}[c["m"]]
        args = (["dec"] if dec else ["enc", "--logN", "10", "-r", "1", "-p", "1"]) + ["-f"]
        if not (c["m"] == "tty-stdin" and c["dflt"]):
            args += ["-P"] if c["m"] == "stdin-once" and c["dflt"] else ["--passphrase", arg]
        args += ["-" if c["rest"] else d + "/in"]
        env = {} if c["var"] == "-" else {"VAR": os.fsdecode(bytes.fromhex(c["var"]))}
        kw = {}
        t = None
        if c["tty"] != "-":
            t = Tty()
            t.type(bytes.fromhex(c["tty"]))
            def pre():
                fcntl.ioctl(os.open(t.name, os.O_RDWR), termios.TIOCSCTTY, 0)
            kw["pre"] = pre
        r = cli(args, stdin=stdin, env=env, cmds=[["kdf", 1, 1, 0, 0, 1]], **kw)
        if t:
            t.close()
        kdf = [e for e in r.ev or [] if e["e"] == "kdf"]
        rest = "?"
        if c["rest"] and kdf and not dec:
            vh.call("kdf", 0, 1, 0, 0, 0)
            q = vh.call("buf", 1, r.out.hex(), H(bytes.fromhex(kdf[0]["pw"])), *p8(force=1))
            vh.call("kdf", 0, 0, 0, 0, 0)
            rest = q["out"] if q["rc"] == 0 else "00"
    return dict(m=c["m"], confirm=c["confirm"], tty=c["tty"], stdin=stdin.hex(), sttty=0, file=c["file"], var=c["var"], ok=int(bool(kdf)), pw=kdf[0]["pw"] if kdf else "", err=r.err.decode("latin1"),
                chkerr=int(not dec), rest=rest, p1="Please enter passphrase", p2="Please confirm passphrase")

def texts(g, n, lone=True):
    """Lines and files of all kinds."""
    A = [c for c in range(33, 127)] + list(range(0xa0, 0x100)) + [32, 32]
    def word(k):
        return bytes(g.choice(A) for _ in range(k))
    NL = [b"\n", b"\n", b"\r\n", b""]
    out = [b"", b"\n", b"\r\n", b"\n\n", b"a", b"a\n", b"a\r\n", b"a\nb", b"a\nb\n", b"a\n\n", b"a\r\n\r\n", b"\na", b" a \n", b"a b\n", b"\xff\xfe\n", b"a\n\n\n"]
    if lone:
        out += [b"a\rb\n", b"\r", b"a\r", b"a\r\r\n"]
    for k in (2044, 2045, 2046, 2047, 2048, 2049, 4093, 4094, 4095, 5000):
        for nl in (b"", b"\n", b"\r\n", b"\nx", b"\n\n"):
            out.append(word(k) + nl)
    for _ in range(n):
        out.append(word(g.choice([0, 1, 2, 5, 8, 20, 60, 255, 256, 300, 1000])) + g.choice(NL) + g.choice([b"", b"", b"", b"", b"x", b"\n", word(10) + b"\n"]))
    return out

def entries(g, n, big=True):
    """What is entered when asked twice: agreeing or not."""
    A = [c for c in range(33, 127)] + [32, 0xe4]
    def word(k):
        return bytes(g.choice(A) for _ in range(k))
    out = [b"", b"a\n", b"a", b"a\na\n", b"a\na", b"a\nb\n", b"a\nb\nc\nc\n", b"a\nb\nb\n", b"a\nb\nb\nb\n", b"\n\n", b"\n", b"a\r\na\r\n", b"a\na\r\n", b"a\nA\n", b"a\na \n", b"ab\na\nab\nab\n", b"a\nb\na\nc\na\nd\na\na\nrest\n",
           b"abc\nabd\nabc\nabc\n", b"a\nb\n" * 40 + b"z\nz\n", b"same\nsame\nmore", b"x\nx\nx\nx\n"]
    if big:
        for k in (2046, 2047, 2048, 4094):
            w = word(k)
            out += [w + b"\n" + w + b"\n", w + w, w + b"\n" + w[:-1] + b"x\n" + b"q\nq\n"]
        w = word(2047)
        out += [w[:2000] + b"\n" + w[:1999] + b"\n"]
    for _ in range(n):
        p = word(g.choice([0, 1, 3, 8, 40]))
        s = b""
        for _ in range(g.choice([0, 0, 1, 2, 3])):
            a = word(g.choice([0, 1, 5]))
            b = g.choice([word(2), a + b"x", a[:-1], a.swapcase(), p])
            s += a + b"\n" + b + g.choice([b"\n", b"\n", b"\r\n"])
        s += p + b"\n" + p + b"\n" + g.choice([b"", b"", b"tail", b"tail\n"])
        out.append(s[:g.choice([len(s), len(s), len(s) - 1, g.randrange(len(s) + 1)])])
    return out

def run(ctx):
    g = ctx.rng
    base = dict(tty="-", stdin="-", file="-", var="-", at=-1, sttty=0)
    n = ctx.t(120, 3000)
    fs, es = texts(g, n), entries(g, n)
    nott, tts = [], []
    for s in fs:
        nott.append(dict(base, m="file", confirm=g.randrange(2), file=s.hex(), stdin=g.choice(["-", b"wrong\nwrong\n".hex()])))
        for m in ("stdin-once", "tty-stdin"):
            nott.append(dict(base, m=m, confirm=0 if m == "tty-stdin" else g.randrange(2), stdin=s.hex(), file=b"wrong".hex(), var=b"wrong".hex()))
        for k in {0, 1, len(s) - 1, len(s), s.find(b"\n") + 1, len(s) // 2}:
            if 0 <= k <= len(s) and g.random() < .7:
                nott.append(dict(base, m="file", confirm=g.randrange(2), file="!", full=s.hex(), at=k))
        nott.append(dict(base, m="env", confirm=g.randrange(2), var=s.hex(), file=b"wrong".hex(), stdin=b"wrong\nwrong\n".hex()))
        nott.append(dict(base, m="tty-once", confirm=g.randrange(2), stdin=s.hex()))
    for s in es:
        nott.append(dict(base, m="tty-stdin", confirm=1, stdin=s.hex(), var=b"wrong".hex()))
    for m in ("tty-stdin", "stdin-once", "tty-once", "env", "file"):
        for confirm in (0, 1):
            nott.append(dict(base, m=m, confirm=confirm, stdin="!"))
            nott.append(dict(base, m=m, confirm=confirm, stdin="", file="!"))
            nott.append(dict(base, m=m, confirm=confirm, stdin=""))
    for c in nott:
        if c["stdin"] == "-":
            c["stdin"] = ""
    ctx.conform("S14", nott, lib, what="without a terminal", make=lambda: NoTtyVH())
    ctx.conform("S14", g.sample(nott, min(len(nott), 400)), lib, what="without a terminal, sanitized", make=lambda: NoTtyVH("san"))
    # at a terminal; the terminal itself limits lines to 4095 characters
    typed = [s for s in fs if max(map(len, s.split(b"\n"))) < 4000]
    for s in typed:
        tts.append(dict(base, m=g.choice(["tty-stdin", "tty-once"]), confirm=0, tty=s.hex(), stdin=b"wrong\nwrong\n".hex()))
        if g.random() < .3:
            tts.append(dict(base, m="tty-once", confirm=1, tty=s.hex(), stdin=b"wrong\nwrong\n".hex()))
        if g.random() < .3:
            tts.append(dict(base, m="stdin-once", confirm=1, tty=s.hex(), sttty=1))
        if g.random() < .3:
            tts.append(dict(base, m="stdin-once", confirm=1, tty=b"wrong\n".hex(), stdin=s.hex()))
    for s in es:
        if max(map(len, s.split(b"\n"))) < 4000:
            tts.append(dict(base, m="tty-stdin", confirm=1, tty=s.hex(), stdin=b"wrong\nwrong\n".hex(), var=b"wrong".hex()))
    ctx.conform("S14", tts, lib, what="at a terminal", make=lambda: TtyVH())
    # the command
    ks = []
    small = [s for s in fs if b"\0" not in s]
    for _ in range(ctx.t(350, 3000)):
        m = g.choice(["tty-stdin", "stdin-once", "tty-once", "env", "file"])
        confirm = g.randrange(2)
        s = g.choice(es if m == "tty-stdin" and confirm else small)
        c = dict(base, m=m, confirm=confirm, dflt=g.randrange(2), rest=0)
        other = b"wrong\nwrong\n".hex()
        k = {"env": "var", "file": "file", "tty-once": "tty"}.get(m, "stdin")
        for x in ("stdin", "var", "file"):
            c[x] = g.choice(["-", other])
        if m == "tty-stdin" and g.random() < .4:
            k = "tty"
        if k == "tty" and max(map(len, s.split(b"\n"))) >= 4000:
            continue
        c[k] = s.hex()
        if m == "tty-stdin" and k == "stdin" and g.random() < .5:
            c["rest"] = 1     # passphrase and data from the same input
            if not confirm:
                c["stdin"] = (g.choice([x for x in small if x.endswith(b"\n") and x.count(b"\n") == 1 and len(x) < 2048]) + box_for(1, 1, 1)).hex()
            else:
                c["stdin"] = (s + g.choice([b"", b"data", g.randbytes(300).replace(b"\0", b"1"), b"line\nline\n"])).hex()
        if g.random() < .1:
            c[k] = "-"
            c["rest"] = 0
        if k == "stdin" and c["stdin"] == "-":
            c["stdin"] = ""
        ks.append(c)
    ctx.conform("S14", ks, command, what="command")
