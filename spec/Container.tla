------------------------------ MODULE Container ------------------------------
(* The encrypted format (FORMAT in the documentation) and what decryption    *)
(* says about any input (S03 to S07).                                        *)
EXTENDS Sequences, Bytes, CryptoFast, Limits, Results

Magic == <<115, 99, 114, 121, 112, 116>>     \* "scrypt"
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

\* ---- making a container; r, p below 2^30 ----
Head48(logN, r, p, salt) == Magic \o <<0, logN>> \o BE(r, 4) \o BE(p, 4) \o salt
SealKey(dk, salt, logN, r, p, data) ==
    LET h48 == Head48(logN, r, p, salt)
        h64 == h48 \o Take(FSha256(h48), 16)
        h96 == h64 \o FHmac(Drop(dk, 32), h64)
        body == h96 \o FAesCtr(Take(dk, 32), Zero8, Zero8, 0, data)
    IN body \o FHmac(Drop(dk, 32), body)
Seal(pw, salt, logN, r, p, data) == SealKey(FScrypt(pw, salt, 2 ^ logN, r, p, 64), salt, logN, r, p, data)

\* Where parameters are too large for the derivation to be computed, a stand-in
\* for it takes its place: the key is then the same for all parameters.
StandIn(pw, salt) == FScrypt(pw, salt, 2, 1, 1, 64)
SealStandIn(pw, salt, logN, r, p, data) == SealKey(StandIn(pw, salt), salt, logN, r, p, data)

\* ---- reading one ----
HLogN(b) == b[8]
HR(b) == BOfDigits(Slice(b, 8, 12), 256, B0)
HP(b) == BOfDigits(Slice(b, 12, 16), 256, B0)
SmallR(b) == BEVal(Slice(b, 8, 12))     \* where valid
SmallP(b) == BEVal(Slice(b, 12, 16))
SaltOf(b) == Slice(b, 16, 48)
DKey(pw, b) == FScrypt(pw, SaltOf(b), 2 ^ HLogN(b), SmallR(b), SmallP(b), 64)

GoodMagic(b) == Len(b) >= 7 /\ Take(b, 6) = Magic
GoodSum(b) == Slice(b, 48, 64) = Take(FSha256(Take(b, 48)), 16)
\* ... with the derived key dk, or the passphrase
HeadSigned(dk, b) == Slice(b, 64, 96) = FHmac(Drop(dk, 32), Take(b, 64))
AllSigned(dk, b) == /\ Len(b) >= 128
                    /\ Slice(b, Len(b) - 32, Len(b)) = FHmac(Drop(dk, 32), Take(b, Len(b) - 32))
PlainOf(dk, b) == FAesCtr(Take(dk, 32), Zero8, Zero8, 0, Slice(b, 96, Len(b) - 32))
GoodHeadSig(pw, b) == HeadSigned(DKey(pw, b), b)
GoodSig(pw, b) == AllSigned(DKey(pw, b), b)
Plain(pw, b) == PlainOf(DKey(pw, b), b)

\* Limits: force, or a memory budget and a CPU budget.
Excess(lim, logN, r, p) ==
    IF lim.force = 1 THEN OK
    ELSE LET big == ~MemFits(lim.mem, logN, r)
             slow == ~OpsFits(lim.num, lim.den, logN, r, p)
         IN IF big /\ slow THEN EBIGSLOW ELSE IF big THEN ETOOBIG ELSE IF slow THEN ETOOSLOW ELSE OK

\* The verdict on the header: everything before the key is derived ...
EarlyVerdict(b, lim) ==
    CASE ~GoodMagic(b)   -> EINVAL
      [] b[7] # 0        -> EVERSION
      [] Len(b) < 96     -> EINVAL
      [] ~GoodSum(b)     -> EINVAL
      [] ~Valid(HLogN(b), HR(b), HP(b)) -> EINVAL
      [] OTHER           -> Excess(lim, HLogN(b), HR(b), HP(b))
\* ... then the passphrase, then the body.
VerdictBy(Key(_, _), pw, b, lim) ==
    LET e == EarlyVerdict(b, lim)
        dk == Key(pw, b)
    IN IF e # OK THEN e
       ELSE IF ~HeadSigned(dk, b) THEN EPASS
       ELSE IF ~AllSigned(dk, b) THEN EINVAL ELSE OK
Verdict(pw, b, lim) == VerdictBy(DKey, pw, b, lim)
StandInKey(pw, b) == StandIn(pw, SaltOf(b))
\* The header alone, as `info` sees it.
InfoVerdict(b) ==
    CASE ~GoodMagic(b)   -> EINVAL
      [] b[7] # 0        -> EVERSION
      [] Len(b) < 96     -> EINVAL
      [] ~Valid(HLogN(b), HR(b), HP(b)) -> EINVAL
      [] OTHER           -> OK
==============================================================================
