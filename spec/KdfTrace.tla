------------------------------ MODULE KdfTrace ------------------------------
(* Recorded calls of the real key-derivation function against Kdf.           *)
EXTENDS Kdf, Traces, BigNat, CryptoFast, Hex

\* The domain of the function (N, len: base 2^15; r, p: base 2^15).
SizeMax == BSub(BPow2(64), B1)
InDomain(a) ==
    /\ a.r # B0 /\ a.p # B0
    /\ BLt(BMul(a.r, a.p), BPow2(30))
    /\ IsPow2(a.N) /\ a.N # B1
    /\ BLe(a.len, BMul(BSub(BPow2(32), B1), BN(32)))
    /\ BLe(BMul(BMul(a.N, a.r), BN(128)), SizeMax)
    /\ BLe(BMul(BMul(a.p, a.r), BN(128)), SizeMax)

TInit == TrInit /\ KInit
TNext ==
    \/ IsEvent("call") /\ Call(InDomain(Ev))
    \/ IsEvent("alloc") /\ Alloc(Ev.id)
    \/ IsEvent("allocfail") /\ AllocFail
    \/ IsEvent("free") /\ Free(Ev.id)
    \/ IsEvent("pbkdf2") /\ Work
    \/ /\ IsEvent("ret") /\ Return(Ev.rc)
       /\ Ev.live = 0
       /\ Ev.guards = 1             \* nothing outside the buffer was written
       /\ dom \/ Ev.untouched = 1   \* refused: nothing written at all
    \* a later valid call gives the right result and is computed the same way
    \/ /\ IsEvent("next") /\ phase = "idle"
       /\ Ev.rc = 0 /\ Ev.guards = 1 /\ Ev.live = 0
       /\ Hex(Ev.out) = FScrypt(Hex(Ev.pw), Hex(Ev.salt), Ev.N, Ev.r, Ev.p, Ev.len)
       /\ UNCHANGED kvars
    \/ Finished /\ phase = "idle" /\ UNCHANGED <<kvars, tvars>>
=============================================================================
