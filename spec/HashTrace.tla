----------------------------- MODULE HashTrace -----------------------------
EXTENDS HashStream, Traces, Hex
TInit == TrInit /\ HInit
TNext == \/ IsEvent("sha") /\ ShaInit(Ev.k)
         \/ IsEvent("hmac") /\ HmacInit(Ev.k, Hex(Ev.key))
         \/ IsEvent("upd") /\ Update(Ev.k, Hex(Ev.d))
         \/ IsEvent("fin") /\ Final(Ev.k, Hex(Ev.out))
         \/ Finished /\ UNCHANGED <<hctx, tvars>>
=============================================================================
