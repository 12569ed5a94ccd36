"""S15: terminal and signals around passphrase entry."""
import itertools, json, os, select, signal, subprocess, sys, tempfile, termios, time
import fw, scr, vbuild
from scr import Scratch
from S09 import box_for
from S14 import Tty, TtyVH, NoTtyVH
ASSUMPTIONS = ["a signal that arrives while the dispositions are being put back takes effect at once, with the terminal and its own disposition restored",
               "signals arrive at calls the code makes, or while it waits for input",
               "standard signals: several of a kind received while one is put off count as one"]
NS = 9

# entry at a terminal or not: what is typed, how it is asked, what fails
SCENES = {
    "once": dict(typed=b"secret\n", dev=1, confirm=0),
    "confirm": dict(typed=b"secret\nsecret\n", dev=1, confirm=1),
    "must": dict(typed=b"secret\nsecret\n", dev=2, confirm=1),
    "retry": dict(typed=b"secret\nsecreT\nsecret\nsecret\n", dev=1, confirm=1),
    "retry2": dict(typed=b"a\nb\nc\nd\n\n\n", dev=2, confirm=1),
    "eof": dict(typed=b"", dev=1, confirm=1),
    "eof2": dict(typed=b"secret\n", dev=1, confirm=1),
    "eof3": dict(typed=b"x\ny\nz\n", dev=2, confirm=1),
    "stdin-tty": dict(typed=b"secret\nsecret\n", dev=0, confirm=1, stdin="tty"),
    "stdin-tty-eof": dict(typed=b"secret", dev=0, confirm=1, stdin="tty"),
    "noecho": dict(typed=b"secret\nsecret\n", dev=1, confirm=1, echo=0),
    "noecho-eof": dict(typed=b"secret\n", dev=1, confirm=1, echo=0),
    "tcget": dict(typed=b"secret\nsecret\n", dev=1, confirm=1, fault=(1, 0, 0)),
    "tcset": dict(typed=b"secret\nsecret\n", dev=1, confirm=1, fault=(0, 1, 0)),
    "tcset-back": dict(typed=b"secret\nsecret\n", dev=1, confirm=1, fault=(0, 2, 0)),
    "tcset-back-eof": dict(typed=b"secret\n", dev=1, confirm=1, fault=(0, 2, 0)),
    "fclose": dict(typed=b"secret\nsecret\n", dev=1, confirm=1, fault=(0, 0, 1)),
    "fclose-eof": dict(typed=b"secret\n", dev=2, confirm=1, fault=(0, 0, 1)),
    "stdin": dict(typed=b"wrong\n", dev=0, confirm=1, stdin=b"secret\nsecret\n".hex()),
    "stdin-retry": dict(typed=b"wrong\n", dev=0, confirm=1, stdin=b"secret\nx\nsecret\nsecret\n".hex()),
    "stdin-eof": dict(typed=b"wrong\n", dev=0, confirm=1, stdin=b"secret\n".hex()),
    "stdin-error": dict(typed=b"wrong\n", dev=0, confirm=0, stdin="dir"),
}
NOTTY = {
    "none": dict(typed=b"", dev=2, confirm=1),
    "instead": dict(typed=b"", dev=1, confirm=1, stdin=b"secret\nsecret\n".hex()),
    "instead-eof": dict(typed=b"", dev=1, confirm=1, stdin=b"secret\n".hex()),
    "instead-retry": dict(typed=b"", dev=1, confirm=1, stdin=b"a\nb\nc\nc\n".hex()),
}
SCENES_ALL = dict(SCENES, **NOTTY)

def enter(vh, c):
    s = SCENES_ALL[c["scene"]]
    tty = getattr(vh, "tty", None)
    vh.call("disp", *c["disp"])
    if tty:
        tty.clear()
        vh.call("echo", s.get("echo", 1))
    vh.call("stdin", s.get("stdin", "null"))
    vh.call("pfault", *s.get("fault", (0, 0, 0)))
    if tty:
        tty.type(s["typed"])
    vh.call("sigs", *["%d:%d" % tuple(x) for x in c["sigs"]])
    r = vh.call("pass", 0, s["dev"], s["confirm"])
    vh.call("sigs")
    vh.call("pfault", 0, 0, 0)
    vh.call("stdin", "null")
    if tty:
        tty.clear()
        termios.tcsetattr(tty.s, termios.TCSANOW, tty.initial)
    c["points"] = r["points"]
    keep = int(s.get("fault", (0, 0))[1] != 2)
    return dict(scene=c["scene"], keep=keep, ign=[k for k in range(NS) if c["disp"][k] == "i"], ev=r["ev"], points=r["points"], rc=r["rc"])

def disps(g):
    return [g.choice("hhhHi") for _ in range(NS)]

# ---- whole processes ----
NAMES = [signal.SIGALRM, signal.SIGHUP, signal.SIGINT, signal.SIGPIPE, signal.SIGQUIT, signal.SIGTERM, signal.SIGTSTP, signal.SIGTTIN, signal.SIGTTOU]
class Job:
    """A command as the foreground job of a terminal of its own."""
    def __init__(self, argv, exe="cli", ign="-", env=None, echo=1, typed=None):
        self.tty = Tty()
        t = termios.tcgetattr(self.tty.s)
        if not echo:
            t[3] &= ~termios.ECHO
            termios.tcsetattr(self.tty.s, termios.TCSANOW, t)
        if typed is not None:
            self.tty.type(typed)
        self.rd, wr = os.pipe()
        e = {"PATH": "/usr/bin:/bin", "LC_ALL": "C", "SUP_FD": str(wr)}
        e.update(env or {})
        d = vbuild.build("plain")
        self.out = tempfile.TemporaryFile()
        self.p = subprocess.Popen([sys.executable, "-S", "-E", os.path.join(vbuild.VERIF, "vlib", "sup.py"), self.tty.name, ign, os.path.join(d, exe)] + argv,
                                  stdin=subprocess.DEVNULL, stdout=self.out, stderr=subprocess.PIPE, env=e, pass_fds=[wr])
        os.close(wr)
        self.buf = b""
        self.err = b""
        self.fate = []
        self.late = 0
        self.pid = self.line(20)
    def line(self, timeout):
        end = time.time() + timeout
        while b"\n" not in self.buf:
            if not select.select([self.rd], [], [], max(0, end - time.time()))[0]:
                return None
            x = os.read(self.rd, 4096)
            if not x:
                return None
            self.buf += x
        a, self.buf = self.buf.split(b"\n", 1)
        return json.loads(a)
    def prompts(self, n):
        """Waits for that many prompts (or the end)."""
        end = time.time() + 20
        fd = self.p.stderr.fileno()
        while self.err.count(b"passphrase: ") < n and time.time() < end:
            if select.select([fd], [], [], .05)[0]:
                x = os.read(fd, 4096)
                if not x:
                    break
                self.err += x
        return self.err.count(b"passphrase: ") >= n
    def blocked(self):
        """Waits until it waits for input."""
        end = time.time() + 10
        n = 0
        while n < 4 and time.time() < end:
            try:
                st = open("/proc/%d/stat" % self.pid).read().rsplit(")", 1)[1].split()[0]
            except OSError:
                return False
            n = n + 1 if st == "S" else 0
            time.sleep(.005)
        return n == 4
    impatient = False
    def wait(self, nudge, prompt=False):
        """What becomes of it; nudge: what to type if nothing does.  prompt:
        something should become of it without that."""
        quiet = 0
        while True:
            f = self.line(10 if prompt and quiet == 0 and not self.fate and not Job.impatient else 1.5 if quiet < 12 else 30)
            if f is None:
                if self.p.poll() is not None or quiet > 12:
                    break
                quiet += 1
                if prompt and not self.fate:
                    self.late = 1
                    Job.impatient = True
                os.write(self.tty.m, nudge)
                continue
            self.fate.append(dict(k=f[0], s=f[1], term=f[2]))
            if f[0] != "stop":
                break
    def close(self):
        if self.p.poll() is None and not (self.fate and self.fate[-1]["k"] != "stop"):
            try:
                os.kill(self.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.kill()
        self.p.wait()
        os.close(self.rd)
        self.p.stderr.close()
        self.out.close()
        self.tty.close()

def fate(vh, c):
    """Signals from outside while a real command waits for the passphrase."""
    with Scratch() as d:
        open(d + "/in", "wb").write(box_for(1, 1, 1) if c["op"] == "dec" else b"data")
        j = Job(["scrypt", c["op"]] + (["--logN", "10", "-r", "1", "-p", "1", "-f"] if c["op"] == "enc" else []) + [d + "/in", d + "/out"], ign="".join(map(str, c["ign"])) or "-", echo=c["echo"])
        try:
            ok = True
            for k, typed in enumerate(c["typed"]):
                if not j.prompts(k + 1):
                    ok = False
                    break
                os.write(j.tty.m, typed.encode())
            ok = ok and j.prompts(len(c["typed"]) + 1)
            ok = ok and j.blocked()
            for x in c["sent"]:
                if ok:
                    if c["how"] == "type":
                        os.write(j.tty.m, {2: b"\x03", 4: b"\x1c", 6: b"\x1a"}[x])
                    else:
                        try:
                            os.kill(j.pid, NAMES[x])
                        except ProcessLookupError:
                            pass
            if not c["sent"]:
                os.write(j.tty.m, b"\x04")
            j.wait(b"Secret9\nSecret9\nSecret9\nSecret9\n", ok and any(x not in c["ign"] for x in c["sent"]))
            f = j.fate
        finally:
            time.sleep(.01)
            echoed = j.tty.seen
            j.close()
        r = dict(sent=c["sent"] if ok else [], ign=c["ign"], fate=f, quiet=int(b"ecret" not in echoed), late=j.late, race=1, err=j.err.decode("latin1"), out=os.path.exists(d + "/out"))
    return r

def inject(vh, c):
    """Default dispositions: signals at points of the entry, in a process of its own."""
    s = SCENES_ALL[c["scene"]]
    with tempfile.TemporaryFile() as ef:
        cmds = ["disp " + " ".join("i" if k in c["ign"] else "d" for k in range(NS)), "stdin " + s.get("stdin", "null"), "pfault %d %d %d" % s.get("fault", (0, 0, 0)),
                "sigs " + " ".join("%d:%d" % tuple(x) for x in c["sigs"]), "pass 0 %d %d" % (s["dev"], s["confirm"])]
        j = Job(["vh", "--version"], exe="vh", env={"VP_CMDS": ";".join(cmds), "VP_FD": "150"}, echo=s.get("echo", 1), typed=s["typed"])
        try:
            j.wait(b"Secret9\n")
            f = j.fate
        finally:
            j.close()
    return dict(sent=[x[1] for x in c["sigs"]], ign=c["ign"], fate=f, quiet=1, late=0, race=0)

def run(ctx):
    g = ctx.rng
    ctx.design("ReadPassDesign")
    ctx.design("ReadPassDesign", cfg_text="CONSTANTS Sigs = {1, 2} MaxSigs = %d MaxTries = 1\nINIT Init\nNEXT Next\nINVARIANTS Progress Safe\nCHECK_DEADLOCK FALSE\n" % ctx.t(6, 9))
    all_h = ["h"] * NS
    # how many points each scene has
    pts = {}
    for scenes, mk in ((SCENES, TtyVH), (NOTTY, NoTtyVH)):
        recs = ctx.conform("S15", [dict(scene=n, disp=all_h, sigs=[]) for n in scenes], enter, make=lambda: mk(), trace=True, what="without signals")
        for r in recs:
            pts[r["scene"]] = r["points"]
    full = ["confirm", "retry", "eof2", "tcset", "stdin", "stdin-tty", "instead"]
    for scenes, mk, w in ((SCENES, TtyVH, "at a terminal"), (NOTTY, NoTtyVH, "without a terminal")):
        cs = []
        for n in scenes:
            for k in range(1, pts[n] + 1):
                for s in range(NS) if (n in full or ctx.thorough) else g.sample(range(NS), 2):
                    cs.append(dict(scene=n, disp=all_h if g.random() < .6 else disps(g), sigs=[(k, s)]))
        # several
        for _ in range(ctx.t(1500, 30000)):
            n = g.choice(list(scenes))
            q = pts[n]
            m = g.choice([2, 2, 2, 3, 4, 9])
            if g.random() < .3:
                k = g.randrange(1, q + 1)
                sg = [(k, s) for s in g.sample(range(NS), m)]
            else:
                sg = [(g.randrange(1, q + 1), g.randrange(NS)) for _ in range(m)]
            cs.append(dict(scene=n, disp=disps(g), sigs=sg))
        for n in scenes:
            cs.append(dict(scene=n, disp=all_h, sigs=[(pts[n] // 2, s) for s in range(NS)]))
            cs.append(dict(scene=n, disp=all_h, sigs=[(k, s) for k in range(1, pts[n] + 1) for s in (2, 6)][:250]))
        ctx.conform("S15", cs, enter, make=lambda: mk(), trace=True, what=w)
    # default dispositions: the process ends or stops
    cs = []
    for n in ("confirm", "retry", "eof2", "tcset", "stdin-tty", "noecho"):
        for k in range(1, pts[n] + 1):
            for s in g.sample(range(NS), ctx.t(1, 9)):
                if ctx.thorough or g.random() < .5:
                    cs.append(dict(scene=n, ign=[], sigs=[(k, s)]))
        for _ in range(ctx.t(10, 200)):
            m = g.choice([2, 3])
            cs.append(dict(scene=n, ign=g.choice([[], [], [1], [g.randrange(NS)]]), sigs=[(g.randrange(1, pts[n] + 1), g.randrange(NS)) for _ in range(m)]))
    ctx.conform("S15Fate", cs, inject, make=lambda: None, what="ended or stopped")
    # a real command at a terminal, signals from outside
    cs = []
    T = {"enc": [[], ["Secret1\n"], ["Secret1\n", "Secret2\n"], ["Secret1\n", "Secret2\n", "Secret3\n"]], "dec": [[]]}
    for op in T:
        for typed in T[op]:
            for s in range(NS):
                cs.append(dict(op=op, typed=typed, sent=[s], ign=[], how="kill", echo=1))
            for s in (2, 4, 6):
                cs.append(dict(op=op, typed=typed, sent=[s], ign=[], how="type", echo=1))
            cs.append(dict(op=op, typed=typed, sent=[], ign=[], how="kill", echo=1))
            for _ in range(ctx.t(4, 60)):
                cs.append(dict(op=op, typed=typed, sent=g.sample(range(NS), g.choice([1, 2, 3])), ign=g.choice([[], [1], g.sample(range(NS), 2)]), how="kill", echo=g.randrange(2)))
    ctx.conform("S15Fate", cs, fate, make=lambda: None, what="command", fresh=True)
