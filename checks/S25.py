"""S25: key derivation and hashing by several threads, under schedules that
TLC enumerates; one thread runs at any time, and is taken off at accesses to
static data or at function entries (harness/threads/vt.c)."""
import json, os, subprocess
from concurrent.futures import ThreadPoolExecutor
import fw, vbuild
ASSUMPTIONS = ["threads are interleaved at accesses to static data, function entries and calls of the allocator, with sequentially consistent memory",
               "library functions and assembly are not interrupted"]
BITS = dict(aesni=(1, 25), rdrand=(1, 30), ssse3=(1, 9), sse2=(2, 26), shani=(3, 29))
FAULTS = ["shani", "shasse2", "smixsse2", "smixsoft"]
EVERY = ["aesni", "rdrand", "shani", "sse2", "ssse3"]

def setup(c):
    r = [7, 0, 0, 0, 0]
    for f in c["feat"]:
        r[BITS[f][0]] |= 1 << BITS[f][1]
    s = "clear\ncpu %s\nfault %s\n" % (" ".join("%x" % x for x in r), " ".join(str(int(f in c["bad"])) for f in FAULTS))
    for o in c["ops"]:
        s += "op %d %s %s %s %d %d %d %d\n" % (o["t"], o["kind"], o["a"] or "-", o["b"] or "-", o["N"], o["r"], o["p"], o["len"])
    return s

def go(vt, c, kinds, scheds):
    """Outcome of each schedule."""
    n = max(1, (len(scheds) + 7) // 8)
    def part(ss):
        text = setup(c) + "".join("go %s %s\n" % (kinds, ",".join("%d:%d" % tuple(x) for x in s)) for s in ss)
        p = subprocess.run([vt], input=text.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=800)
        out = [json.loads(l) for l in p.stdout.splitlines()]
        if len(out) != len(ss):
            raise RuntimeError("vt: %d outcomes for %d schedules (status %d)" % (len(out), len(ss), p.returncode))
        return out
    with ThreadPoolExecutor(8) as ex:
        return [o for b in ex.map(part, [scheds[i:i + n] for i in range(0, len(scheds), n)]) for o in b]

def record(c, o):
    return dict(feat=c["feat"], bad=c["bad"], ops=c["ops"], status=o.get("status", 0), live=o.get("live", 0), res=o.get("res", []))

def op(t, kind, a=b"", b=b"", N=0, r=0, p=0, len=32):
    return dict(t=t, kind=kind, a=a.hex(), b=b.hex(), N=N, r=r, p=p, len=len)

def scenarios(ctx):
    g = ctx.rng
    def kdf(t, N=None, r=None, p=None):
        return op(t, "scrypt", g.randbytes(g.randrange(20)), g.randbytes(g.randrange(40)), N or g.choice([2, 4]), r or g.randrange(1, 4), p or g.randrange(1, 3), g.choice([16, 32, 64]))
    def hashing(t):
        k = g.choice(["sha", "shaparts", "hmac", "hmacparts", "pbkdf2"])
        return op(t, k, g.randbytes(g.choice([0, 3, 64, 70])), g.randbytes(g.choice([0, 5, 64, 150])), 2 if k == "pbkdf2" else 0, len=40 if k == "pbkdf2" else 32)
    two = [
        (EVERY, [], []),
        (EVERY, ["smixsse2"], []),
        (EVERY, ["shani"], []),
        (EVERY, ["shani", "shasse2"], []),
        (EVERY, [], [kdf(-1)]),
        (["sse2"], [], []),
        ([], [], []),
    ]
    out = []
    for feat, bad, before in two:
        out.append(dict(feat=feat, bad=bad, ops=before + [kdf(0), kdf(1)] + ([hashing(1)] if g.random() < .5 else [])))
    out.append(dict(feat=EVERY, bad=[], ops=[hashing(0), hashing(0), hashing(1), hashing(1)]))
    out.append(dict(feat=EVERY, bad=["shani"], ops=[hashing(0), hashing(1), kdf(1)]))
    out.append(dict(feat=EVERY, bad=[], ops=[hashing(-1), hashing(0), hashing(0), hashing(1), hashing(1)]))
    out.append(dict(feat=EVERY, bad=["smixsse2", "smixsoft"], ops=[kdf(0), kdf(1)]))
    three = []
    for feat, bad, n in ((EVERY, [], 3), (EVERY, ["shani", "smixsse2"], 3), (EVERY, [], 4)):
        three.append(dict(feat=feat, bad=bad, ops=[o for t in range(n) for o in (kdf(t), hashing(t))]))
    return out, three

def run(ctx):
    ctx.equiv(("sha", "hmac", "pbkdf2", "scrypt"), 1)
    cfg = "SPECIFICATION Spec\nCONSTANTS Ths = {%s}\nFeats <- %s\nBads <- %s\nEarly = %s\nINVARIANTS Right Chosen\n%sCHECK_DEADLOCK FALSE\n"
    ctx.design("Threads", cfg_text=cfg % ("t1, t2", "AllFeats", "AllBads", "FALSE", "PROPERTIES Ends Settled\n"))
    ctx.design("Threads", cfg_text=cfg % ("t1, t2, t3", "AllFeats" if ctx.thorough else "Modern", "SomeBads", "FALSE", ""))
    r = ctx.tlc("Threads", cfg_text=cfg % ("t1, t2", "AllFeats", "AllBads", "TRUE", ""))
    if r.ok:
        raise RuntimeError("Threads.tla does not see a core chosen before its test")
    vt = vbuild.build_threads()
    g = ctx.rng
    cases = []          # (scenario, kinds, schedule)
    two, more = scenarios(ctx)
    seen = {}
    total = 0
    def explore(c, kinds, scheds):
        nonlocal total
        for s, o in zip(scheds, go(vt, c, kinds, scheds)):
            rec = record(c, o)
            seen.setdefault(json.dumps(rec, sort_keys=True), (rec, c, kinds, s))
        total += len(scheds)
    for c in two:
        o = go(vt, c, "sf", [[]])[0]
        pts = o.get("points", [[200, 1200], [200, 1200]])
        for k, kinds in enumerate("sf"):
            n = [p[k] for p in pts]
            size = n[0] * (n[1] + 1) + n[1] * (n[0] + 1)
            step = max(1, size // ctx.t(3500, 80000))
            dst = os.path.join(ctx.tmp, "scheds")
            ctx.design("Schedules", cfg_text="INIT SInit\nNEXT SNext\nCHECK_DEADLOCK FALSE\n",
                       env=dict(OUT=dst, N0=str(n[0]), N1=str(n[1]), STEP=str(step), OFF=str(g.randrange(step))), workers=1)
            explore(c, kinds, [json.loads(l) for l in open(dst)])
    for c in more:
        o = go(vt, c, "sf", [[]])[0]
        n = len(o["points"])
        for k, kinds in enumerate("sf"):
            scheds = []
            for _ in range(ctx.t(2000, 30000)):
                scheds.append([(g.randrange(n), g.randrange(1, g.choice([3, 30, o["points"][0][k] + 1]))) for _ in range(g.randrange(1, 30))])
            explore(c, kinds, scheds)
    ctx.count("schedules", total)
    recs = [v[0] for v in seen.values()]
    ctx.traces += total
    bad = ctx.judge("S25", recs)
    if bad:
        rec, c, kinds, s = list(seen.values())[bad[0]]
        again = [record(c, x) for x in go(vt, c, kinds, [s, s])]
        if ctx.judge("S25", again):
            ctx.violation("key derivation or hashing depends on the schedule of threads", case=dict(ops=c, kinds=kinds, schedule=s), observed=rec, again=again, module="S25", vt=setup(c))
        raise RuntimeError("an outcome of a schedule does not repeat")
    ctx.sample(dict(spec="S25", schedules=total, outcomes=len(recs), observed=recs[0]))
    ctx.note("%d schedules, %d different outcomes" % (total, len(recs)))
