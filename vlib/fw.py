"""What all checks share: running the harness, judging records with TLC,
confirming rejections, evidence."""
import json, os, queue, random, re, shutil, signal, subprocess, sys, tempfile, threading, time
import select
import tlc as T, vbuild

VERIF = vbuild.VERIF
FX = lambda b: b.hex() if b else "-"

class VHDied(Exception):
    pass

class VH:
    """A harness process: call("cmd", args...) -> reply."""
    def __init__(self, variant="plain", env=None, pre=None, **popen):
        self.dir = vbuild.build(variant)
        e = {k: v for k, v in os.environ.items() if not k.startswith("SCRYPT")}
        e["ASAN_OPTIONS"] = "detect_leaks=0:allocator_may_return_null=1:abort_on_error=1"
        e["UBSAN_OPTIONS"] = "halt_on_error=1:abort_on_error=1"
        e.update(env or {})
        self.errf = tempfile.TemporaryFile()
        if pre:
            popen["preexec_fn"] = pre
        self.p = subprocess.Popen([os.path.join(self.dir, "vh")], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=self.errf, env=e, **popen)
        self.buf = b""
        self.log = []
    def call(self, *args, timeout=120):
        line = " ".join(str(a) for a in args)
        self.log.append(line if len(line) < 2000 else line[:2000] + "...")
        if len(self.log) > 400:
            del self.log[:200]
        try:
            self.p.stdin.write(line.encode() + b"\n")
            self.p.stdin.flush()
        except OSError:
            self._died("harness gone before", line)
        end = time.time() + timeout
        fd = self.p.stdout.fileno()
        while b"\n" not in self.buf[-1:]:
            left = end - time.time()
            r = select.select([fd], [], [], max(0, left))[0]
            if not r:
                self.p.kill()
                self.p.wait()
                raise VHDied("no answer within %d s to: %s" % (timeout, line[:500]))
            d = os.read(fd, 1 << 20)
            if not d:
                self._died("harness died in", line)
            self.buf += d
        out, self.buf = self.buf, b""
        return json.loads(out)
    def _died(self, what, line):
        rc = self.p.wait()
        self.errf.seek(0)
        err = self.errf.read().decode(errors="replace")
        raise VHDied("%s: %s (status %s)\n%s" % (what, line[:500], rc, err[:3000]))
    def close(self):
        try:
            self.p.stdin.close()
        except OSError:
            pass
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()
        self.errf.close()
    def __enter__(self):
        return self
    def __exit__(self, *a):
        if a[0] is not None:
            self.p.kill()
        self.close()

class Violation(Exception):
    def __init__(self, path):
        self.path = path

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.thorough = tier == "thorough"
        self.rng = random.Random("%s/%s" % (seed, prop))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.models = [], [], []
        self.counts = {}
        self.nviol = 0
        self.tmp = tempfile.mkdtemp(prefix="vp-%s-" % prop)
    def t(self, quick, thorough):
        return thorough if self.thorough else quick
    def note(self, s):
        print("[%s %.0fs] %s" % (self.prop, time.time() - self.t0, s), flush=True)
    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n
    # ---- reporting ----
    def violation(self, what, **detail):
        d = os.path.join(VERIF, "evidence", "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s.json" % (self.prop, int(time.time() * 1000)))
        detail.update(property=self.prop, what=what, seed=self.seed, tier=self.tier)
        with open(p, "w") as f:
            json.dump(detail, f, indent=1, default=str)
        self.nviol += 1
        print("--- %s: %s" % (self.prop, what))
        s = json.dumps(detail, default=str)
        print("    " + s[:3000])
        raise Violation(p)
    def sample(self, s, cap=6):
        if len(self.samples) < cap:
            self.samples.append(s)
    def evidence(self, level, extra_cov=None, assumptions=()):
        cov = dict(states=self.states, transitions=self.transitions,
                   traces_validated_against_impl=self.traces, samples=self.samples or ["none"],
                   models=self.models)
        cov.update(self.counts)
        cov.update(extra_cov or {})
        if self.notes:
            cov["notes"] = self.notes
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                           assumptions=list(assumptions), wall_s=round(time.time() - self.t0, 2),
                           violations=self.nviol), f, indent=1)
    # ---- TLC ----
    def tlc(self, module, model=True, **kw):
        r = T.run(module, **kw)
        self.states += r.states
        self.transitions += r.transitions
        self.models.append({"module": module, "states": r.states, "transitions": r.transitions})
        return r
    def design(self, module, **kw):
        """Checks the specification itself: a violation here is an error of
        the machinery, not of the code."""
        r = self.tlc(module, **kw)
        if not r.ok:
            raise T.TlcError("specification %s violates %s:\n%s" % (module, r.invariant, r.out[-5000:]))
        return r
    def prove(self, module, how="apalache", args=(), timeout=300):
        """Proofs about the specification itself, where TLC's enumeration
        does not reach: by Apalache (full-size integers) or TLAPS."""
        d = tempfile.mkdtemp(prefix="prove-", dir=self.tmp)
        for f in os.listdir(os.path.join(VERIF, "spec")):
            if f.endswith(".tla"):
                shutil.copy(os.path.join(VERIF, "spec", f), d)
        cmd = (["apalache-mc", "check", "--out-dir=" + os.path.join(d, "out"), *args, module + ".tla"] if how == "apalache"
               else ["tlapm", "--cache-dir", d, *args, module + ".tla"])
        try:
            r = subprocess.run(cmd, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
            out = r.stdout.decode(errors="replace")
        except (OSError, subprocess.TimeoutExpired) as e:
            out = str(e)
        if how == "apalache":
            good, bad = "The outcome is: NoError" in out, "The outcome is: Error" in out
        else:
            m = re.search(r"All (\d+) obligations? proved", out)
            good, bad = bool(m), False
        if bad:
            raise T.TlcError("%s: %s found an error\n%s" % (module, how, out[-3000:]))
        if good:
            self.models.append({"module": module, "proved_by": how})
            self.count("proved_modules", 1)
        else:       # the tool could not do it here: says nothing about the code
            self.notes.append("%s: %s gave no proof: %s" % (module, how, out[-300:]))
        self.note("%s: %s" % (module, "proved by " + how if good else "no proof"))
    def inductive(self, module):
        """FInv is an inductive invariant (Apalache)."""
        for init, n in (("FInit", 0), ("FIndInit", 1)):
            self.prove(module, args=["--cinit=FConst", "--init=" + init, "--next=FNext", "--inv=FInv", "--length=%d" % n])
    def judge(self, module, recs, cfg_text=None, trace=False, **kw):
        """Indices of the records the specification rejects ([] or the first).
        trace: each record holds a sequence of events `ev`, which has to be a
        behaviour of the specification (see Traces.tla)."""
        if not recs:
            return []
        if trace:
            path = os.path.join(self.tmp, "%s-%d.ndjson" % (module, time.time_ns()))
            T.write_ndjson(path, recs)
            r = self.tlc(module, cfg_text=cfg_text or "INIT TInit\nNEXT TNext\nCHECK_DEADLOCK TRUE\n",
                         env={"CASES": path}, undefined_ok=True, **kw)
            os.unlink(path)
            n = sum(len(x["ev"]) for x in recs)
            self.count("events_validated", n)
            if r.ok:
                if r.states < n + len(recs):
                    raise T.TlcError("%s: %d states for %d events\n%s" % (module, r.states, n, r.out[-2000:]))
                return []
            self.last_reject = r.last_state()
            self.note("rejected after: " + r.last_state().replace("\n", " ")[:1500])
            return [int(r.var("t")) - 1]
        path = os.path.join(self.tmp, "%s-%d.ndjson" % (module, time.time_ns()))
        T.write_ndjson(path, recs)
        if cfg_text is None:
            cfg_text = "INIT CInit\nNEXT CNext\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n"
        r = self.tlc(module, cfg_text=cfg_text, env={"CASES": path}, undefined_ok=True, **kw)
        os.unlink(path)
        if r.ok:
            want = len(recs) + 8
            if r.states != want:
                raise T.TlcError("%s: %d states for %d records\n%s" % (module, r.states, len(recs), r.out[-2000:]))
            return []
        l = int(r.var("l"))
        if not r.violation:
            self.note("the specification is not defined for the record: " + r.out[-1500:])
        return [l - 1]
    def equiv(self, kinds, n=1):
        """The accelerated evaluation of the crypto operators agrees with
        their definitions (and these with published answers)."""
        import crypto_cases
        g = {"sha": "sha", "hmac": "hmac", "salsa": "salsa", "scrypt": "scrypt", "fscrypt": "scrypt", "aes": "aesctr"}
        cs = [c for c in crypto_cases.kats() if g[c["g"]] in kinds] + crypto_cases.agree(self.rng, n, kinds)
        path = os.path.join(self.tmp, "equiv.ndjson")
        T.write_ndjson(path, cs)
        r = self.tlc("CryptoEquiv", cfg_text="INIT CInit\nNEXT CNext\nINVARIANT Inv\nCHECK_DEADLOCK FALSE\n", env={"CASES": path})
        if not r.ok:
            raise T.TlcError("CryptoEquiv: operators disagree\n" + r.out[-3000:])
        self.count("operator_equivalence_cases", len(cs))
    # ---- observing ----
    def observe(self, cases, fn, nproc=8, fresh=False, make=None):
        """fn(vh, case) -> record for every case; crashes become records with
        field "crash".  Cases are dealt to processes in a fixed way, so the
        history each case sees is reproducible."""
        make = make or (lambda: VH())
        recs = [None] * len(cases)
        errs = []
        over = []
        def work(k):
            vh = None
            try:
                for i in range(k, len(cases), nproc):
                    if over and i > min(over):
                        return
                    if vh is None:
                        vh = make()
                    try:
                        recs[i] = fn(vh, cases[i])
                    except VHDied as e:
                        recs[i] = {"crash": str(e)}
                        vh.close()
                        vh = None
                        over.append(i)      # enough
                        return
                    if fresh and vh is not None:
                        vh.close()
                        vh = None
            except BaseException as e:
                errs.append(e)
            finally:
                if vh is not None:
                    vh.close()
        ts = [threading.Thread(target=work, args=(k,)) for k in range(min(nproc, len(cases)))]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
        if errs:
            raise errs[0]
        return recs
    def conform(self, module, cases, fn, nproc=8, fresh=False, make=None, what="", variant=None, judge_kw=None, tries=2, trace=False):
        """Observes the real code on all cases and has TLC judge the records
        against the specification; a rejection counts only if it repeats, for
        the case alone in a new process or for the whole batch."""
        if variant:
            make = lambda: VH(variant)
        make = make or (lambda: VH())
        judge_kw = judge_kw or {}
        def run(cs, np):
            recs = self.observe(cs, fn, np, fresh, make)
            for i, r in enumerate(recs):
                if r is not None and "crash" in r:
                    return recs, i
            bad = self.judge(module, recs, trace=trace, **judge_kw)
            return recs, (bad[0] if bad else None)
        recs, bad = run(cases, nproc)
        if bad is None:
            self.traces += len(cases)
            self.count("cases_" + (what or module), len(cases))
            for c, r in list(zip(cases, recs))[:2]:
                self.sample({"spec": module, "case": short(c), "observed": short(r)}, cap=10)
            self.note("%s: %d records accepted %s" % (module, len(cases), what))
            return recs
        first = (cases[bad], recs[bad])
        self.note("%s rejects a record (%s); repeating" % (module, json.dumps(short(recs[bad]))[:1500]))
        for _ in range(tries):
            r1, b1 = run([cases[bad]], 1)
            if b1 is not None:
                self.violation("specification %s rejects what the code does %s" % (module, what), module=module,
                               case=cases[bad], observed=r1[0], history="none (fresh process)")
            if len(cases) > 1 and not fresh:
                recs2, b2 = run(cases, nproc)
                if b2 is not None:
                    self.violation("specification %s rejects what the code does %s" % (module, what), module=module,
                                   case=cases[b2], observed=recs2[b2], first_case=first[0],
                                   history=[short(c) for c in cases[b2 % nproc:b2 + 1:nproc]][-50:])
        self.notes.append("a rejection did not repeat: " + json.dumps(short(first[1]))[:500])
        self.note("the rejection did not repeat; ignored")
        self.traces += len(cases) - 1
        return recs

def short(x, n=160):
    if isinstance(x, dict):
        return {k: short(v, n) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [short(v, n) for v in x[:24]] + (["... %d in all" % len(x)] if len(x) > 24 else [])
    if isinstance(x, bytes):
        x = x.hex()
    if isinstance(x, str) and len(x) > n:
        return x[:n] + "... (%d characters)" % len(x)
    return x

def main(argv):
    import importlib
    prop = argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1"))
    ctx = Ctx(prop, tier, seed)
    sys.path.insert(0, os.path.join(VERIF, "checks"))
    mod = importlib.import_module(prop)
    rc = 0
    level = getattr(mod, "LEVEL", "model_checking")
    try:
        mod.run(ctx)
        ctx.note("held")
    except Violation as v:
        print("VIOLATION property=%s replay=%s" % (prop, v.path))
        rc = 1
    finally:
        shutil.rmtree(ctx.tmp, ignore_errors=True)
        ctx.evidence(level, assumptions=getattr(mod, "ASSUMPTIONS", ()))
    return rc
