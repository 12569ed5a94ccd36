"""Builds the code under test from /repo's working tree (never from its build
products), the harness programs and the Java operator overrides.  Everything
goes to /verif/build/<hash>, keyed by the content of all inputs."""
import fcntl, glob, hashlib, os, re, shutil, subprocess, sys, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VP_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRCDIRS = ["lib", "lib-platform", "libcperciva", "libscrypt-kdf"]

BASE = ["gcc", "-std=gnu99", "-g", "-O2", "-w", "-U_FORTIFY_SOURCE", "-DHAVE_CONFIG_H",
        '-DCPUSUPPORT_CONFIG_FILE="cpusupport-config.h"',
        '-DAPISUPPORT_CONFIG_FILE="apisupport-config.h"']
POSIX = ["-D_POSIX_C_SOURCE=200809L", "-D_XOPEN_SOURCE=700"]
SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer"]

class BuildError(Exception):
    pass

def sources():
    out = []
    for d in SRCDIRS:
        for root, dirs, files in os.walk(os.path.join(REPO, d)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith((".c", ".h")):
                    out.append(os.path.join(root, f))
    out.append(os.path.join(REPO, "main.c"))
    return out

def digest(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(os.path.relpath(p, "/").encode() + b"\0")
        with open(p, "rb") as f:
            h.update(f.read())
        h.update(b"\0")
    return h.hexdigest()[:20]

def includes():
    inc = ["-I" + os.path.join(VERIF, "harness", "config")]
    dirs = sorted({os.path.dirname(p) for p in sources() if p.endswith(".h")})
    return inc + ["-I" + d for d in dirs]

def units():
    """C translation units of the program other than main.c."""
    out = []
    for p in sources():
        b = os.path.basename(p)
        if not p.endswith(".c") or b == "main.c":
            continue
        if b in ("crypto_scrypt-ref.c", "crypto_aesctr_shared.c"):
            continue
        if "/POSIX/" in p or "/Build/" in p or "/tests/" in p:
            continue
        out.append(p)
    return out

def pflags(p):
    b = os.path.basename(p)
    f = []
    if "memlimit" not in b:
        f += POSIX
    if "shani" in b:
        f += ["-msse2", "-mssse3", "-msha"]
    if "aesni" in b and "crypto_" in b:
        f += ["-maes"]
    if "rdrand" in b and "crypto_" in b:
        f += ["-mrdrnd"]
    return f

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError(" ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))

# Symbols the harness may intercept (link-time --wrap: calls made by the code
# under test or the harness, not by libc itself).
WRAPS = """malloc calloc realloc free posix_memalign strdup mmap munmap
open read close clock_gettime clock_getres getrlimit sysinfo sysconf
crypto_scrypt generate_seed_rdrand crypto_scrypt_smix_sse2 crypto_scrypt_smix
SHA256_Transform_shani SHA256_Transform_sse2 PBKDF2_SHA256
crypto_aes_encrypt_block_aesni crypto_aes_key_expand_aesni AES_encrypt
fopen fclose fflush isatty tcgetattr tcsetattr sigaction raise fgets getenv
""".split()

def _lock():
    os.makedirs(BUILD, exist_ok=True)
    f = open(os.path.join(BUILD, ".lock"), "w")
    fcntl.flock(f, fcntl.LOCK_EX)
    return f

def _prune(keep, prefix):
    ds = sorted((d for d in glob.glob(os.path.join(BUILD, prefix + "*"))),
                key=os.path.getmtime)
    for d in ds[:-6]:
        if d != keep:
            shutil.rmtree(d, ignore_errors=True)

def build(variant="plain"):
    """Returns the directory with vh (harness, and the command with
    interception, see vh_main.c) and cli (plain command).  variant: plain | san."""
    hs = sorted(glob.glob(os.path.join(VERIF, "harness", "**", "*.[ch]"), recursive=True))
    key = digest(sources() + hs + [os.path.abspath(__file__)], variant)
    d = os.path.join(BUILD, "c-%s-%s" % (variant, key))
    lk = _lock()
    try:
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return d
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        san = SAN if variant == "san" else []
        inc = includes()
        us = units()
        objs, jobs = [], []
        for p in us:
            o = os.path.join(d, os.path.relpath(p, REPO).replace("/", "_") + ".o")
            objs.append(o)
            jobs.append(BASE + san + pflags(p) + inc + ["-c", p, "-o", o])
        # main.c as the command itself and as a function of the harness
        mo = os.path.join(d, "main.o")
        jobs.append(BASE + san + POSIX + inc + ["-c", os.path.join(REPO, "main.c"), "-o", mo])
        # reference implementation shipped in the tree, under other names
        ref = os.path.join(REPO, "lib/crypto/crypto_scrypt-ref.c")
        if os.path.exists(ref):
            ro = os.path.join(d, "ref.o")
            jobs.append(BASE + san + POSIX + inc + ["-Dcrypto_scrypt=ref_crypto_scrypt", "-c", ref, "-o", ro])
            objs_h = [ro]
        else:
            objs_h = []
        for p in hs:
            if p.endswith(".c") and os.path.basename(p).startswith("vh_"):
                o = os.path.join(d, "h_" + os.path.basename(p) + ".o")
                objs_h.append(o)
                feat = POSIX if "vh_parse" in p else ["-D_GNU_SOURCE"]
                jobs.append(BASE + san + feat + ["-I" + os.path.join(VERIF, "harness"), "-I" + REPO] + inc + ["-c", p, "-o", o])
        mh = os.path.join(d, "h_main.o")
        jobs.append(BASE + san + POSIX + inc + ["-Dmain=scrypt_main", "-c", os.path.join(REPO, "main.c"), "-o", mh])
        objs_h.append(mh)
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        wr = ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)]
        link = ["gcc", "-g"] + san
        run(link + wr + objs_h + objs + ["-lcrypto", "-lrt", "-lm", "-lutil", "-o", os.path.join(d, "vh")])
        run(link + [mo] + objs + ["-lcrypto", "-lrt", "-o", os.path.join(d, "cli")])
        for o in glob.glob(os.path.join(d, "*.o")):
            os.unlink(o)
        open(os.path.join(d, "ok"), "w").close()
        _prune(d, "c-%s-" % variant)
        return d
    finally:
        lk.close()

WRAPS_T = """memcpy memmove memset memcmp malloc calloc realloc free posix_memalign mmap munmap
pthread_mutex_lock flockfile funlockfile
SHA256_Transform_shani SHA256_Transform_sse2 crypto_scrypt_smix_sse2 crypto_scrypt_smix""".split()

def build_threads():
    """The program that runs the code under test in scheduled threads: every
    access to memory and every function entry calls harness/threads/vt.c."""
    hs = sorted(glob.glob(os.path.join(VERIF, "harness", "**", "*.[ch]"), recursive=True))
    d = os.path.join(BUILD, "t-" + digest(sources() + hs + [os.path.abspath(__file__)], "threads"))
    lk = _lock()
    try:
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d)
            return os.path.join(d, "vt")
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        inc, objs, jobs = includes(), [], []
        tsan = ["-fsanitize=thread"] + ["-fno-builtin-" + f for f in ("memcpy", "memmove", "memset", "memcmp")]
        for p in units():
            o = os.path.join(d, os.path.relpath(p, REPO).replace("/", "_") + ".o")
            objs.append(o)
            jobs.append(BASE + tsan + pflags(p) + inc + ["-c", p, "-o", o])
        o = os.path.join(d, "vt.o")
        objs.append(o)
        jobs.append(BASE + ["-D_GNU_SOURCE"] + inc + ["-c", os.path.join(VERIF, "harness", "threads", "vt.c"), "-o", o])
        with ThreadPoolExecutor(8) as ex:
            list(ex.map(run, jobs))
        run(["gcc", "-g", "-Wl," + ",".join("--wrap=" + w for w in WRAPS_T)] + objs + ["-lcrypto", "-lrt", "-lm", "-lpthread", "-o", os.path.join(d, "vt")])
        for o in glob.glob(os.path.join(d, "*.o")):
            os.unlink(o)
        open(os.path.join(d, "ok"), "w").close()
        _prune(d, "t-")
        return os.path.join(d, "vt")
    finally:
        lk.close()

TLAJARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

def java_classes():
    js = sorted(glob.glob(os.path.join(VERIF, "spec", "java", "*.java")))
    key = digest(js)
    d = os.path.join(BUILD, "j-" + key)
    lk = _lock()
    try:
        if not os.path.exists(os.path.join(d, "ok")):
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            run(["javac", "-nowarn", "-cp", TLAJARS, "-d", d] + js)
            open(os.path.join(d, "ok"), "w").close()
            _prune(d, "j-")
        return d
    finally:
        lk.close()

if __name__ == "__main__":
    t = time.time()
    try:
        print(build("plain"))
        print(build("san"))
        print(java_classes())
    except BuildError as e:
        print(e)
        sys.exit(2)
    print("%.1fs" % (time.time() - t))
