------------------------------- MODULE Sha256 -------------------------------
(* FIPS 180-4 SHA-256, RFC 2104 HMAC and RFC 8018 PBKDF2, executable.       *)
EXTENDS Bytes, Words

Kc == <<<<17034,12184>>, <<28983,17553>>, <<46528,64463>>, <<59829,56229>>,
      <<14678,49755>>, <<23025,4593>>, <<37439,33444>>, <<43804,24277>>,
      <<55303,43672>>, <<4739,23297>>, <<9265,34238>>, <<21772,32195>>,
      <<29374,23924>>, <<32990,45566>>, <<39900,1703>>, <<49563,61812>>,
      <<58523,27073>>, <<61374,18310>>, <<4033,40390>>, <<9228,41420>>,
      <<11753,11375>>, <<19060,33962>>, <<23728,43484>>, <<30457,35034>>,
      <<38974,20818>>, <<43057,50797>>, <<45059,10184>>, <<48985,32711>>,
      <<50912,3059>>, <<54695,37191>>, <<1738,25425>>, <<5161,10599>>,
      <<10167,2693>>, <<11803,8504>>, <<19756,28156>>, <<21304,3347>>,
      <<25866,29524>>, <<30314,2747>>, <<33218,51502>>, <<37490,11397>>,
      <<41663,59553>>, <<43034,26187>>, <<49739,35696>>, <<51052,20899>>,
      <<53650,59417>>, <<54937,1572>>, <<62478,13701>>, <<4202,41072>>,
      <<6564,49430>>, <<7735,27656>>, <<10056,30540>>, <<13488,48309>>,
      <<14620,3251>>, <<20184,43594>>, <<23452,51791>>, <<26670,28659>>,
      <<29839,33518>>, <<30885,25455>>, <<33992,30740>>, <<36039,520>>,
      <<37054,65530>>, <<42064,27883>>, <<48889,41975>>, <<50801,30962>>>>

H0 == <<<<27145,58983>>, <<47975,44677>>, <<15470,62322>>, <<42319,62778>>,
      <<20750,21119>>, <<39685,26764>>, <<8067,55723>>, <<23520,52505>>>>

Sigma0(x) == WXor(WXor(WRotr(x, 2), WRotr(x, 13)), WRotr(x, 22))
Sigma1(x) == WXor(WXor(WRotr(x, 6), WRotr(x, 11)), WRotr(x, 25))
sigma0(x) == WXor(WXor(WRotr(x, 7), WRotr(x, 18)), WShr(x, 3))
sigma1(x) == WXor(WXor(WRotr(x, 17), WRotl(x, 13)), WShr(x, 10))
Ch(x, y, z) == WXor(WAnd(x, y), WAnd(WNot(x), z))
Maj(x, y, z) == WXor(WXor(WAnd(x, y), WAnd(x, z)), WAnd(y, z))

Schedule(blk) ==
    FoldLeft(LAMBDA W, t : Append(W,
                 WAdd(WAdd(sigma1(W[t - 2]), W[t - 7]),
                      WAdd(sigma0(W[t - 15]), W[t - 16]))),
             [i \in 1..16 |-> BEWord(blk, 4 * (i - 1))], Upto(17, 64))

Round(s, k, w) ==
    LET T1 == WAdd(WAdd3(s[8], Sigma1(s[5]), Ch(s[5], s[6], s[7])), WAdd(k, w))
        T2 == WAdd(Sigma0(s[1]), Maj(s[1], s[2], s[3]))
    IN <<WAdd(T1, T2), s[1], s[2], s[3], WAdd(s[4], T1), s[5], s[6], s[7]>>

\* The compression function: chaining value (8 words) and a 64-byte block.
Compress(st, blk) ==
    LET W == Schedule(blk)
        e == FoldLeft(LAMBDA s, t : Round(s, Kc[t], W[t]), st, Upto(1, 64))
    IN [i \in 1..8 |-> WAdd(st[i], e[i])]

\* Padding of a message of n bytes: its length in bits is 8n, on 8 bytes
\* (n < 2^31 here, so that 8n < 2^34).
BitLen(n) == <<0, 0, 0, n \div (2 ^ 29), (n \div (2 ^ 21)) % 256, (n \div 8192) % 256,
               (n \div 32) % 256, (n % 32) * 8>>
Padding(n) == <<128>> \o Zeros((119 - (n % 64)) % 64) \o BitLen(n)

Absorb(st, p) == FoldLeft(LAMBDA s, i : Compress(s, Slice(p, 64 * i, 64 * i + 64)),
                          st, Upto(0, Len(p) \div 64 - 1))
Digest(st) == ConcatAll([i \in 1..8 |-> BEBytes(st[i])])
Sha256(m) == Digest(Absorb(H0, m \o Padding(Len(m))))

\* The message made of n copies of the 64-byte block b followed by m, with
\* n = nh * 2^20 + nl: for messages too long to write down.
BitLenRep(nh, nl, k) ==   \* of 64 * n + k bytes: 512 * n + 8 * k bits, k < 2^20
    LET e == (nl % 2048) * 512 + k * 8       \* low part, < 2^25
        d == nl \div 2048 + e \div 1048576    \* weight 2^20
        c == nh * 512 + d                   \* weight 2^20, nh < 2^20
    IN <<0, 0, c \div (2 ^ 28), (c \div (2 ^ 20)) % 256, (c \div 4096) % 256, (c \div 16) % 256>>
       \o <<((c % 16) * 16) + ((e \div 65536) % 16), (e \div 256) % 256, e % 256>>
PaddingRep(nh, nl, k) == <<128>> \o Zeros((119 - (k % 64)) % 64) \o Tail(BitLenRep(nh, nl, k))
Sha256Rep(b, nh, nl, m) ==
    LET rep(st, n) == FoldLeft(LAMBDA s, i : Compress(s, b), st, Upto(1, n))
        st1 == FoldLeft(LAMBDA s, i : rep(s, 1048576), H0, Upto(1, nh))
    IN Digest(Absorb(rep(st1, nl), m \o PaddingRep(nh, nl, Len(m))))

HmacKey(k) == LET kk == IF Len(k) > 64 THEN Sha256(k) ELSE k
              IN kk \o Zeros(64 - Len(kk))
Hmac(k, m) ==
    LET kk == HmacKey(k)
    IN Sha256(XorBytes(kk, Const(64, 92)) \o
              Sha256(XorBytes(kk, Const(64, 54)) \o m))

RECURSIVE Iterate(_, _, _, _)
Iterate(P, U, T, n) == IF n = 0 THEN T
                       ELSE LET V == Hmac(P, U) IN Iterate(P, V, XorBytes(T, V), n - 1)
PBlock(P, S, c, i) == LET U == Hmac(P, S \o BE(i, 4)) IN Iterate(P, U, U, c - 1)
Pbkdf2(P, S, c, n) ==
    Take(ConcatAll([i \in 1..((n + 31) \div 32) |-> PBlock(P, S, c, i)]), n)
=============================================================================
