-------------------------------- MODULE Aes --------------------------------
(* FIPS 197 AES (encryption), executable, and CTR mode as used by scrypt.   *)
EXTENDS Bytes

XTime(a) == IF a < 128 THEN 2 * a ELSE (2 * a - 256) ^^ 27
RECURSIVE GMul(_, _)
GMul(a, b) == IF b = 0 THEN 0
              ELSE (IF b % 2 = 1 THEN a ELSE 0) ^^ GMul(XTime(a), b \div 2)
GInv(a) == IF a = 0 THEN 0 ELSE CHOOSE b \in 1..255 : GMul(a, b) = 1
Bit(x, i) == (x \div (2 ^ i)) % 2
Affine(b) ==
    FoldLeft(LAMBDA acc, i : acc + (2 ^ i) *
        ((Bit(b, i) + Bit(b, (i + 4) % 8) + Bit(b, (i + 5) % 8) +
          Bit(b, (i + 6) % 8) + Bit(b, (i + 7) % 8) + Bit(99, i)) % 2),
        0, <<0, 1, 2, 3, 4, 5, 6, 7>>)
\* The definition of the S-box; the table is checked against it by AesSBox.
SBoxDef(x) == Affine(GInv(x))
SBoxTable ==
    <<99,124,119,123,242,107,111,197,48,1,103,43,254,215,171,118,
      202,130,201,125,250,89,71,240,173,212,162,175,156,164,114,192,
      183,253,147,38,54,63,247,204,52,165,229,241,113,216,49,21,
      4,199,35,195,24,150,5,154,7,18,128,226,235,39,178,117,
      9,131,44,26,27,110,90,160,82,59,214,179,41,227,47,132,
      83,209,0,237,32,252,177,91,106,203,190,57,74,76,88,207,
      208,239,170,251,67,77,51,133,69,249,2,127,80,60,159,168,
      81,163,64,143,146,157,56,245,188,182,218,33,16,255,243,210,
      205,12,19,236,95,151,68,23,196,167,126,61,100,93,25,115,
      96,129,79,220,34,42,144,136,70,238,184,20,222,94,11,219,
      224,50,58,10,73,6,36,92,194,211,172,98,145,149,228,121,
      231,200,55,109,141,213,78,169,108,86,244,234,101,122,174,8,
      186,120,37,46,28,166,180,198,232,221,116,31,75,189,139,138,
      112,62,181,102,72,3,246,14,97,53,87,185,134,193,29,158,
      225,248,152,17,105,217,142,148,155,30,135,233,206,85,40,223,
      140,161,137,13,191,230,66,104,65,153,45,15,176,84,187,22>>
SBox == [x \in 0..255 |-> SBoxTable[x + 1]]
M2 == [x \in 0..255 |-> XTime(x)]
M3 == [x \in 0..255 |-> XTime(x) ^^ x]

SubWord(w) == <<SBox[w[1]], SBox[w[2]], SBox[w[3]], SBox[w[4]]>>
RotWord(w) == <<w[2], w[3], w[4], w[1]>>
Rcon(i) == FoldLeft(LAMBDA acc, j : XTime(acc), 1, Upto(2, i))

\* Key schedule: sequence of 4-byte words, 4 * (Nr + 1) of them.
KeyWords(key) ==
    LET Nk == Len(key) \div 4
        Nr == Nk + 6
    IN FoldLeft(LAMBDA W, i :   \* i is the zero-based index
         LET t == W[i]
             u == IF i % Nk = 0
                  THEN XorBytes(SubWord(RotWord(t)), <<Rcon(i \div Nk), 0, 0, 0>>)
                  ELSE IF Nk > 6 /\ i % Nk = 4 THEN SubWord(t) ELSE t
         IN Append(W, XorBytes(W[i - Nk + 1], u)),
         [j \in 1..Nk |-> Slice(key, 4 * (j - 1), 4 * j)], Upto(Nk, 4 * (Nr + 1) - 1))

\* State: 16 bytes, column by column.
ShiftRowsIdx == [i \in 1..16 |-> LET r == (i - 1) % 4  c == (i - 1) \div 4
                                 IN 4 * ((c + r) % 4) + r + 1]
SubShift(s) == [i \in 1..16 |-> SBox[s[ShiftRowsIdx[i]]]]
MixColumns(s) ==
    [i \in 1..16 |->
        LET c == 4 * ((i - 1) \div 4)
            r == (i - 1) % 4
            a(k) == s[c + ((r + k) % 4) + 1]
        IN (M2[a(0)] ^^ M3[a(1)]) ^^ (a(2) ^^ a(3))]
RoundKey(W, n) == W[4 * n + 1] \o W[4 * n + 2] \o W[4 * n + 3] \o W[4 * n + 4]

AesBlock(key, blk) ==
    LET W == KeyWords(key)
        Nr == Len(key) \div 4 + 6
        s0 == XorBytes(blk, RoundKey(W, 0))
        s1 == FoldLeft(LAMBDA s, n : XorBytes(MixColumns(SubShift(s)), RoundKey(W, n)),
                       s0, Upto(1, Nr - 1))
    IN XorBytes(SubShift(s1), RoundKey(W, Nr))

\* CTR mode: nonce is 8 bytes, the block number the next 8, big-endian.
\* Data starts at byte `off` (0..15) of block number `blkno` (8 bytes).
RECURSIVE CtrStream(_, _, _, _)
CtrStream(key, nonce, blkno, n) ==
    IF n <= 0 THEN <<>>
    ELSE AesBlock(key, nonce \o blkno) \o CtrStream(key, nonce, BEInc(blkno), n - 16)
AesCtr(key, nonce, blkno, off, data) ==
    XorBytes(data, Drop(CtrStream(key, nonce, blkno, off + Len(data)), off))
=============================================================================
