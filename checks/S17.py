"""S17: numbers as text, in the parsing routines and the options."""
import ctypes, math, struct
from fractions import Fraction
import fw, scr
from scr import limbs, cli
from S09 import box_for, clock
ASSUMPTIONS = ["texts without NUL characters; the C locale",
               "values below the smallest normal number may be refused or rounded; bounds of signed variables lie within their type",
               "-M -m -t: the value is told from outcomes of operations whose needs lie on both sides of it"]
libc = ctypes.CDLL(None)
libc.strtod.restype = ctypes.c_double
libc.strtod.argtypes = [ctypes.c_char_p, ctypes.c_void_p]
UT = dict(u8=8, u16=16, u32=32, u64=64, uint=32, size=64, umax=64)
ST = dict(i8=8, i16=16, i32=32, i64=64, int=32, imax=64)
SV = lambda v: dict(neg=int(v < 0), mag=limbs(abs(v)))
def RV(x):
    """A floating-point number as an exact value."""
    if math.isnan(x):
        return dict(kind="nan", neg=0, num=[], den=[1])
    neg = int(math.copysign(1, x) < 0)
    if math.isinf(x):
        return dict(kind="inf", neg=neg, num=[], den=[1])
    a, b = abs(x).as_integer_ratio()
    return dict(kind="num", neg=neg, num=limbs(a), den=limbs(b))
def rnd32(x):
    try:
        return struct.unpack("f", struct.pack("f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)
def neighbours(x, typ):
    """The representable magnitudes next to |x|, as exact quotients."""
    x = abs(x)
    if not math.isfinite(x):
        return [dict(num=[], den=[1])] * 2
    if typ == "double":
        lo, hi = (math.nextafter(x, 0) if x else math.nextafter(0, 1)), math.nextafter(x, math.inf)
        top = Fraction(2) ** 1024
    else:
        b = struct.unpack("I", struct.pack("f", x))[0]
        f = lambda k: struct.unpack("f", struct.pack("I", k))[0]
        lo, hi = f(b - 1) if b else f(1), f(b + 1)
        top = Fraction(2) ** 128
    q = [Fraction(lo), top if math.isinf(hi) else Fraction(hi)]
    return [dict(num=limbs(v.numerator), den=limbs(v.denominator)) for v in q]

def integer(vh, c):
    r = vh.call("pn", c["type"], c["s"].hex() or "-", c["form"], c["min"], c["max"], c["base"], c["trailing"])
    lo, hi = int(c["min"]), int(c["max"])
    if c["type"] in UT:
        top = (1 << UT[c["type"]]) - 1
        if c["form"] in "2e":
            lo, hi = 0, top
        lo, hi = max(lo, 0), min(hi, top)
    return dict(k="int", s=c["s"].hex(), lo=SV(lo), hi=SV(hi), base=c["base"], trailing=c["trailing"], ok=r["ok"], val=SV(int(r["val"]) if r["ok"] else 0))

def real(vh, c):
    r = vh.call("pn", c["type"], c["s"].hex() or "-", c["form"], c["min"], c["max"], 0, c["trailing"])
    lo, hi = (-math.inf, math.inf) if c["form"] in "2e" else (float(c["min"]), float(c["max"]))
    near = libc.strtod(c["s"] + b"\0", None)
    if c["type"] == "float" and not math.isnan(near):
        near = rnd32(near)
    v = float.fromhex(r["val"]) if r["ok"] else near
    b, a = neighbours(v, c["type"])
    return dict(k="real", type=c["type"], s=c["s"].hex(), lo=RV(lo), hi=RV(hi), trailing=c["trailing"], ok=r["ok"], val=RV(v), near=RV(near), below=b, above=a)

def size(vh, c):
    r = vh.call("hsparse", c["s"].hex() or "-")
    return dict(k="size", s=c["s"].hex(), ok=r["ok"], val=SV(int(r["val"]) if r["ok"] else 0))

def option(_, c):
    o, s = c["opt"], c["s"]
    big = 1 << 60
    n = 1 << 6
    speed = 512 * n
    common = dict(k="opt", opt=o, s=s.hex(), total=limbs(big), speed=limbs(speed), logN=1, r=[], p=[], near=RV(0.0), below=dict(num=[], den=[1]), above=dict(num=[], den=[1]), got=[])
    arg = c["glue"]
    opt = [o.encode(), s] if arg == " " else [o.encode() + arg.encode() + s]
    cmds = [["lim", "inf", "inf", "inf", big if o == "-M" else 1 << 50, 1, 4096, 1 << 48], clock(n, 1), ["kdf", 1, 1, 0, 0, 1]]
    if o in ("--logN", "-r", "-p"):
        rest = [x for k, v in (("--logN", "10"), ("-r", "2"), ("-p", "3")) if k != o for x in (k, v)]
        r = cli(["enc"] + c["pre"] + rest + opt + ["--passphrase", "env:PW", "-"], stdin=b"data", env={"PW": "pw"}, cmds=cmds)
        if r.rc == 0:
            common["got"] = limbs(r.out[7] if o == "--logN" else int.from_bytes(r.out[8:12] if o == "-r" else r.out[12:16], "big"))
    else:
        q = c["q"]
        r = cli(["dec"] + c["pre"] + opt + ([] if o == "-t" else ["-t", "inf"]) + ["--passphrase", "env:PW", "-"], stdin=box_for(*q), env={"PW": "pw"}, cmds=cmds)
        common.update(logN=q[0], r=limbs(q[1]), p=limbs(q[2]))
        if o == "-t":
            common["total"] = limbs(1 << 50)
        if o == "-m":
            common["total"] = limbs(1 << 50)
        if o in ("-m", "-t"):
            v = libc.strtod(s + b"\0", None)
            common["near"] = RV(v)
            common["below"], common["above"] = neighbours(v, "double")
    common.update(rc=r.rc, err=r.err.decode("latin1"), nkdf=sum(e["e"] == "kdf" for e in r.ev) if r.ev is not None else -1, outlen=len(r.out))
    return common

SP = [b"", b"", b"", b"", b" ", b"\t", b"\n \r", b"\v\f"]
def decorated(g, t):
    """Ways to write it that may or may not still be the number."""
    x = g.random()
    if x < .5:
        return t
    return g.choice([b" " + t, b"\t\n\v\f\r " + t, b"+" + t, b"-" + t, b"--" + t, b"+-" + t, b"- " + t, b"+ " + t, t + b" ", t + b"x", t + b"\n", t + b".", t + b"0", t + b",", b"0" + t, b"00" + t, b"0x" + t, b"0X" + t,
                     b"x" + t, b"\xa0" + t, t[:1] + b" " + t[1:], t[:1] + b"_" + t[1:], t + b"L", t + b"u", t + b"e0", t + b"-", b"'" + t, b"0b" + t, t[::-1], t.swapcase(), t + b"\x80", b"." + t])

def integers(g, quick):
    out = []
    BAD = [b"", b" ", b"-", b"+", b"0x", b"0X", b"0xg", b"abc", b"zz", b"ffff", b"7f", b"0b1", b"0b", b"1e3", b"1.5", b".", b"0x-1", b"-0x1", b"+0x7F", b"09", b"08", b"-0", b"+0", b"0", b"00", b"inf", b"nan", b"1,000", b"0x 1", b"\t", b"z", b"-z"]
    edge = lambda bits: [0, 1, 2, 7, 8, 9, 10, 99, 100, 127, 128, 255, 256, (1 << bits) - 1, 1 << bits, (1 << bits) + 1, (1 << bits - 1) - 1, 1 << bits - 1, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 64) + 5, 10 ** 19, 10 ** 20, 1 << 65, 1 << 128, 10 ** 60]
    def text(v, base):
        if base in (0, 10):
            k = g.choice([10, 10, 16, 8]) if base == 0 else 10
        else:
            k = base
        d, n = "0123456789abcdefghijklmnopqrstuvwxyz", v
        t = ""
        while n:
            t, n = d[n % k] + t, n // k
        t = t or "0"
        if g.random() < .3:
            t = t.upper()
        if base == 0:
            t = {10: "", 16: g.choice(["0x", "0X"]), 8: "0"}[k] + t
        return t.encode()
    for typ in list(UT) + list(ST):
        bits = (UT | ST)[typ]
        for _ in range(260 if quick else 4000):
            e = edge(bits)
            form = g.choice("24iex" if typ in UT else "44x")
            base = g.choice([0, 10, 16, 8, 2, 36]) if form in "ex" else 0
            tr = g.randrange(2) if form in "ex" else 0
            if typ in UT:
                lo, hi = (g.choice(e) % (1 << 64), g.choice(e[:21]) % (1 << 64)) if form != "i" else (g.choice([0, -1, -5, 1, 10, -(1 << 63), 100]), g.choice([0, -1, -7, 5, 100, 255, 1 << 31, (1 << 63) - 1, -(1 << 63)]))
                if form != "i" and g.random() < .6:
                    lo = g.choice([0, 1, 10])
            else:
                m = 1 << bits - 1
                lo, hi = g.choice([-m, -m, -m + 1, 0, -1, 1, -100]), g.choice([m - 1, m - 1, m - 2, 0, 1, -1, 100])
            v = g.choice(e + [lo, hi, lo - 1, hi + 1, lo + 1, hi - 1, g.randrange(1 << g.randrange(1, 70))])
            s = g.choice(BAD) if g.random() < .15 else (b"-" if v < 0 else b"") + text(abs(v), base)
            out.append(dict(type=typ, s=decorated(g, s) if g.random() < .6 else s, form=form, min=str(lo), max=str(hi), base=base, trailing=tr))
    return out

def real_text(g):
    k = g.randrange(12)
    if k == 0:
        return g.choice([b"inf", b"INF", b"Infinity", b"infinity", b"infi", b"in", b"nan", b"NaN", b"nan(1)", b"nan(", b"nan(x_1)", b"-inf", b"+inf", b"-nan", b"infx", b"nanx", b"infinityx", b"1#INF", b"NAN()"])
    if k == 1:
        return g.choice([b"", b".", b"-.", b"e5", b".e5", b"0x", b"0x.", b"0xp1", b"0x.8", b"0x1p", b"0x1p+", b"0x1p-1", b"0x1.8p1", b"0X.1P4", b"0x10", b"0x1e5", b"1e", b"1e+", b"1e-", b"1e+-1", b"1d5", b"1.5.2", b"5.", b".5", b"0.", b"+.5", b"- .5", b"1e5", b"1E5", b"1e 5", b"0x1g", b"--1"])
    if k == 2:
        return repr(g.choice([0.5, 0.5000000000000001, 0.49999999999999994, 1.7976931348623157e308, 2.2250738585072014e-308, 3.4028234663852886e38, 1.1754943508222875e-38, 1.0, 0.1, 9007199254740993.0, 5e-324])).encode()
    if k == 3:
        return g.choice([b"1e308", b"1.8e308", b"1e309", b"1e999", b"-1e400", b"1e-400", b"1e-308", b"2e-308", b"1e39", b"3.5e38", b"-3.5e38", b"3.402824e38", b"1e-46", b"1e-39", b"1e99999", b"0e999", b"0e99999", b"0.0000e-9999", b"1e-99999",
                         b"9007199254740993", b"9007199254740992.5", b"9007199254740993.00000000000000000000000001", b"1.00000000000000011102230246251565404", b"1.000000059604644775390625", b"16777217", b"0.1e1", b"100e-2", b"0x1.fffffffffffff8p0", b"0x1.fffffffffffffp1023", b"0x1p1024", b"0x1p-1022", b"0x1p-1023"])
    t = b"%d" % g.randrange(10 ** g.randrange(1, 25)) if g.random() < .8 else b""
    if g.random() < .7:
        t += b"." + (b"%0*d" % (g.randrange(1, 22), g.randrange(10 ** g.randrange(1, 22))) if g.random() < .9 else b"")
    if g.random() < .4:
        t += g.choice([b"e", b"E"]) + g.choice([b"", b"+", b"-"]) + b"%d" % g.randrange(g.choice([5, 30, 330]))
    return t

def reals(g, quick):
    out = []
    B = ["-inf", "inf", "0", "0.5", "1", "-1", "1e10", "1e308", "3e38", "0.1", "-0.0", "1e-300", "5"]
    for typ in ("double", "double", "float"):
        for _ in range(900 if quick else 15000):
            form = g.choice("244iex")
            s = real_text(g)
            s = decorated(g, s) if g.random() < .4 else (b"-" + s if g.random() < .2 else s)
            lo, hi = g.choice(B), g.choice(B)
            if form == "i":
                lo, hi = str(g.choice([0, -5, 1, 100])), str(g.choice([0, 5, 100, 2 ** 31 - 1]))
            elif g.random() < .5:
                lo, hi = g.choice(["0", "-inf", "-1e10"]), g.choice(["inf", "0.5", "1e20"])
            out.append(dict(type=typ, s=s, form=form, min=lo, max=hi, trailing=g.randrange(2) if form in "ex" else 0))
    return out

def size_text(g):
    v = g.choice([0, 1, 9, 10, 999, 1000, 1024, (1 << 64) - 1, 1 << 64, (1 << 64) + 1, 18446744073709551, 18446744073709552, 18446744073709550, 18446744073709, 18446744074, 18446744073, 18446745, 18447, 18446, 18, 19, 1844674407370955161, 1844674407370955162, 10 ** 19, 10 ** 20, 10 ** 25, g.randrange(1 << g.randrange(1, 66))])
    t = b"%d" % v
    return t + g.choice([b"", b"", b" ", b"  "]) + g.choice([b"", b"", b"k", b"M", b"G", b"T", b"P", b"E", b"K", b"m", b"Z", b"ki", b"kk", b"kM"]) + g.choice([b"", b"B", b"B", b"b", b"BB", b"iB", b" B", b"B "])

def sizes(g, quick):
    import itertools
    out = [b""]
    al = [b"1", b"0", b"9", b" ", b"k", b"E", b"B", b"-"]
    for n in range(1, 6 if quick else 7):
        out += [b"".join(x) for x in itertools.product(al, repeat=n)] if n < 5 else [b"".join(g.choice(al) for _ in range(n)) for _ in range(1500)]
    out += [size_text(g) for _ in range(2500 if quick else 30000)]
    out += [decorated(g, size_text(g)) for _ in range(600 if quick else 6000)]
    # every character at every place of an accepted text
    for t in (b"12 kB", b"5"):
        for i in range(len(t) + 1):
            for ch in range(1, 256):
                out.append(t[:i] + bytes([ch]) + t[i:])
    return [dict(s=s) for s in out]

def near_q(o, v):
    """Parameters whose needs are at, below or above the value (for -M -m: in
    bytes, of 2^50 bytes; for -t: 512*64 operations per second)."""
    if o == "-t":
        b = v * 32768 / 8        # r * p for N = 2
        logN = 1
    else:
        b = v / 256
        logN = 1
    b = int(b)
    while b >= (1 << 30) - 2:
        b >>= 1
        logN += 1
    k = max(1, b)
    return [(logN, k, 1), (logN, k + 1, 1)] if o != "-t" else [(logN, 1, k), (logN, 1, k + 1)]

def options(g, quick):
    out = []
    for o, lo, hi in (("--logN", 10, 40), ("-r", 1, 32), ("-p", 1, 2048)):
        texts = [b"%d" % v for v in (0, 1, lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, hi + 256, (1 << 32) + lo, (1 << 64) + lo, (1 << 31) + lo, -lo, -1, lo - (1 << 32), lo - (1 << 64))]
        texts += [b"", b" ", b"x", b"0x%x" % lo, b"0x%X" % hi, b"0%o" % lo, b"0%o" % hi, b"0%o" % (hi + 1), b"%d " % lo, b" %d" % lo, b"+%d" % lo, b"%d.0" % lo, b"%de0" % lo, b"%d,5" % lo, b"inf", b"nan", b"0x", b"08", b"%dk" % lo]
        for _ in range(40 if quick else 400):
            texts.append(decorated(g, b"%d" % g.randrange(hi + 3)))
        for t in texts:
            out.append(dict(opt=o, s=t))
    for o in ("-m", "-t"):
        texts = [b"0", b"-0", b"0.0", b"0.5", b"0.500000000000001", b"0.50000000000000000000000000001", b"0.25", b"1", b"1e-3", b"1e-9", b"-0.1", b"nan", b"inf", b"-inf", b"NaN", b"", b".", b"5", b"300", b"1e300", b"1e400", b"1e-320", b"1e-400", b"0x0.4p0", b"0x1p-3", b"1/4", b"0.2.1", b"0.3 ", b" 0.3", b"0,3", b"50%", b"0.1f", b"1e5", b"10", b"0.001", b"123456.789"]
        texts += [real_text(g) for _ in range(35 if quick else 500)] + [decorated(g, repr(round(g.random() / 2, 4)).encode()) for _ in range(35 if quick else 500)]
        for t in texts:
            v = libc.strtod(t + b"\0", None)
            v = v if math.isfinite(v) and v > 0 else 1
            for q in near_q(o, (min(v, .5) * 2.0 ** 50) if o == "-m" else min(v, 1e20)):
                out.append(dict(opt=o, s=t, q=q))
    for _ in range(140 if quick else 2000):
        t = g.choice([b"0", b"1", b"1MB", b"2 MB", b"1048576", b"1048577", b"3000000", b"3MB", b"3 MB", b"3M", b"5G", b"5 G", b"17TB", b"1 PB", b"18E", b"19E", b"18446744073709551615", b"18446744073709551616", b"1.5GB", b"1GiB", b"1gb", b"-1", b"", b"B", b"1e6", b"4000kB"]) if g.random() < .4 else size_text(g)
        v = max(1 << 20, min(1 << 60, scr_value(t)))
        for q in near_q("-M", v):
            out.append(dict(opt="-M", s=t, q=q))
    for c in out:
        c["glue"] = g.choice(["", "", " "]) if not c["opt"].startswith("--") else g.choice(["=", " "])
        if c["glue"] == "" and (c["s"] == b"" or c["opt"] == "-p" and 0):
            c["glue"] = " "
        c["pre"] = g.choice([[], [], ["-v"], ["-v"]])
    return out

def scr_value(t):
    import re
    m = re.match(rb"([0-9]+) ?([kMGTPE]?)", t)
    return int(m.group(1)) * 1000 ** " kMGTPE".index((m.group(2) or b" ").decode()) if m else 1 << 21

def run(ctx):
    ctx.equiv(("nat",), ctx.t(2, 10))
    g = ctx.rng
    quick = not ctx.thorough
    a, b, c = integers(g, quick), reals(g, quick), sizes(g, quick)
    for cs in (a, b, c):
        for x in cs:
            x["s"] = x["s"].replace(b"\0", b"")
    ctx.conform("S17", a, integer, what="integers")
    ctx.conform("S17", b, real, what="reals")
    ctx.conform("S17", c, size, what="sizes")
    ctx.conform("S17", g.sample(a, 500), integer, what="integers, sanitized", variant="san")
    ctx.conform("S17", g.sample(b, 500), real, what="reals, sanitized", variant="san")
    ctx.conform("S17", g.sample(c, 800), size, what="sizes, sanitized", variant="san")
    ctx.conform("S17", options(g, quick), option, what="options", make=lambda: None)
