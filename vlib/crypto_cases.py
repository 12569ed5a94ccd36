"""Cases for CryptoEquiv: published answers and agreement of the accelerated
operator evaluation with the TLA+ definitions."""
import hashlib
def L(b): return list(b)
def limbs(n):
    r = []
    while n:
        r.append(n & 32767)
        n >>= 15
    return r
def kats():
    c = []
    def kat(g, **k): c.append(dict(f="kat", g=g, **k))
    H = bytes.fromhex
    kat("sha", m=[], out=L(H("e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855")))
    kat("sha", m=L(b"abc"), out=L(H("ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad")))
    kat("sha", m=L(b"abcdbcdecdefdefgefghfghighijhijkijkljklmklmnlmnomnopnopq"),
        out=L(H("248d6a61d20638b8e5c026930c3e6039a33ce45964ff2167f6ecedd419db06c1")))
    kat("hmac", k=[11] * 20, m=L(b"Hi There"), out=L(H("b0344c61d8db38535ca8afceaf0bf12b881dc200c9833da726e9376c2e32cff7")))
    kat("hmac", k=[0xaa] * 131, m=L(b"Test Using Larger Than Block-Size Key - Hash Key First"),
        out=L(H("60e431591ee0b67f0d8a26aacbf5b77f8e0bc6213728c5140546040f0ee37f54")))
    kat("salsa", m=L(H("7e879a214f3ec9867ca940e641718f26baee555b8c61c1b50df846116dcd3b1dee24f319df9b3d8514121e4b5ac5aa3276021d2909c74829edebc68db8b8c25e")),
        out=L(H("a41f859c6608cc993b81cacb020cef05044b2181a2fd337dfd7b1c6396682f29b4393168e3c9e6bcfe6bc5b7a06d96bae424cc102c91745c24ad673dc7618f81")))
    kat("scrypt", p=[], s=[], N=16, r=1, pp=1, n=64,
        out=L(H("77d6576238657b203b19ca42c18a0497f16b4844e3074ae8dfdffa3fede21442fcd0069ded0948f8326a753a0fc81f17e8d3e0fb2e0d3628cf35e20c38d18906")))
    kat("fscrypt", p=L(b"password"), s=L(b"NaCl"), N=1024, r=8, pp=16, n=64,
        out=L(H("fdbabe1c9d3472007856e7190d01e9fe7c6ad7cbc8237830e77376634b3731622eaf30d92e22a3886ff109279d9830dac727afb94a83ee6d8360cbdfa2cc0640")))
    kat("aes", k=list(range(16)), m=L(H("00112233445566778899aabbccddeeff")), out=L(H("69c4e0d86a7b0430d8cdb78070b4c55a")))
    kat("aes", k=list(range(32)), m=L(H("00112233445566778899aabbccddeeff")), out=L(H("8ea2b7ca516745bfeafc49904b496089")))
    return c

def agree(rng, n=1, kinds=("sha", "hmac", "pbkdf2", "salsa", "scrypt", "aesctr", "xor")):
    rb = lambda k: L(rng.randbytes(k))
    c = []
    for _ in range(n):
        if "sha" in kinds:
            for k in (0, 1, 55, 56, 63, 64, 119, rng.randrange(200)):
                c.append(dict(f="sha", m=rb(k)))
        if "sharep" in kinds:
            for _ in range(3):
                c.append(dict(f="sharep", b=rb(64), n=rng.randrange(5), m=rb(rng.randrange(150)), big=rng.randrange(1 << 20), k=rng.randrange(1 << 20)))
            k = rng.randrange(1, 100)
            c.append(dict(f="pbkdf2tail", p=rb(4), s=rb(4), c=1, n=1000, k=k))
        if "hmac" in kinds:
            for k in (0, 32, 64, 65, rng.randrange(150)):
                c.append(dict(f="hmac", k=rb(k), m=rb(rng.randrange(100))))
        if "pbkdf2" in kinds:
            c.append(dict(f="pbkdf2", p=rb(rng.randrange(40)), s=rb(rng.randrange(20)), c=rng.choice([1, 2, 3]), n=rng.randrange(80)))
        if "salsa" in kinds:
            c.append(dict(f="salsa", m=rb(64)))
        if "scrypt" in kinds:
            c.append(dict(f="scrypt", p=rb(rng.randrange(20)), s=rb(rng.randrange(20)), N=rng.choice([2, 4]), r=rng.choice([1, 2]), pp=rng.choice([1, 2]), n=rng.randrange(1, 70)))
        if "aesctr" in kinds:
            for kl in (16, 32):
                c.append(dict(f="aesctr", k=rb(kl), nonce=rb(8), blkno=rng.choice([rb(8), [0] * 8, [0, 0, 0, 0, 255, 255, 255, 255], [255] * 8]), off=rng.randrange(16), m=rb(rng.randrange(50))))
        if "nat" in kinds:
            for _ in range(20):
                nat = lambda: limbs(rng.choice([0, 1, (1 << 15) - 1, 1 << 15, rng.randrange(1 << rng.randrange(1, 200))]))
                c.append(dict(f="nat", a=nat(), b=nat(), n=rng.randrange(6)))
        if True:
            m = rng.randbytes(rng.randrange(40))
            c.append(dict(f="hex", s=m.hex(), m=L(m)))
        if "zeros" in kinds:
            c.append(dict(f="zeros", k=rb(64), m=rb(96), n=rng.randrange(200)))
        if "xor" in kinds:
            k = rng.randrange(70)
            c.append(dict(f="xor", k=rb(k), m=rb(k)))
    return c
