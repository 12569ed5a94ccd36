"""Runs TLC on the specifications in /verif/spec."""
import json, os, re, shutil, subprocess, tempfile
import vbuild

SPEC = os.path.join(vbuild.VERIF, "spec")

class TlcError(Exception):
    pass

class Result:
    def __init__(self, rc, out):
        self.rc, self.out = rc, out
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", out)
        self.states = int(m[-1][1]) if m else 0
        self.transitions = int(m[-1][0]) if m else 0
        self.ok = rc == 0
        m = re.search(r"Invariant (\S+) is violated", out)
        self.invariant = m.group(1) if m else None
        self.prints = []
        for line in out.splitlines():
            if line.startswith('"@@'):
                self.prints.append(line)
    # 12: safety, 13: liveness, 11: deadlock, 10: assumption
    @property
    def violation(self):
        return self.rc in (10, 11, 12, 13)
    def last_state(self):
        """Variables of the last state of the error trace, as text."""
        i = self.out.rfind("\nState ")
        return self.out[i:].split("\n\n")[0] if i >= 0 else ""
    def var(self, name):
        m = re.findall(r"(?m)^(?:/\\ )?%s = (.*)$" % name, self.out)
        return m[-1] if m else None

def run(module, cfg=None, env=None, workers=8, timeout=800, args=(), heap="6g",
        cfg_text=None, fast=True, check=True, undefined_ok=False):
    """cfg_text, if given, replaces the .cfg file."""
    tmp = tempfile.mkdtemp(prefix="tlc-")
    try:
        cfgp = os.path.join(SPEC, cfg or module + ".cfg")
        if cfg_text is not None:
            cfgp = os.path.join(tmp, module + ".cfg")
            with open(cfgp, "w") as f:
                f.write(cfg_text)
        cp = vbuild.TLAJARS
        if fast:
            cp = vbuild.java_classes() + ":" + cp
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-XX:TieredStopAtLevel=4",
               "-Djava.io.tmpdir=" + tmp,
               "-cp", cp, "tlc2.TLC", "-metadir", os.path.join(tmp, "meta"), "-noGenerateSpecTE",
               "-workers", str(workers), "-config", cfgp] + list(args) + [os.path.join(SPEC, module + ".tla")]
        e = dict(os.environ)
        e.update(env or {})
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=e,
                               timeout=timeout, cwd=tmp)
        except subprocess.TimeoutExpired:
            raise TlcError("TLC timed out on %s" % module)
        res = Result(r.returncode, r.stdout.decode(errors="replace"))
        # an evaluation that fails in some state, of which the trace is given
        res.undefined = (not res.ok and not res.violation and "The behavior up to this point is" in res.out
                         and "OutOfMemory" not in res.out and "StackOverflow" not in res.out and "Java heap" not in res.out)
        if check and not (res.ok or res.violation or (undefined_ok and res.undefined)):
            raise TlcError("TLC failed on %s (rc %d):\n%s" % (module, r.returncode, res.out[-6000:]))
        return res
    finally:
        shutil.rmtree(tmp, ignore_errors=True)

def write_ndjson(path, recs):
    with open(path, "w") as f:
        for r in recs:
            f.write(json.dumps(r) + "\n")
