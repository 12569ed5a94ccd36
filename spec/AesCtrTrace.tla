----------------------------- MODULE AesCtrTrace -----------------------------
EXTENDS AesCtr, Traces, Hex
TInit == TrInit /\ AInit
Good == Ev.guards = 1
TNext ==
    \/ IsEvent("key") /\ Ev.ok = 1 /\ NewKey(Ev.k, Hex(Ev.b))
    \/ IsEvent("freekey") /\ FreeKey(Ev.k)
    \/ IsEvent("open") /\ Ev.ok = 1 /\ Open(Ev.s, Ev.k, Hex(Ev.nonce))
    \/ IsEvent("reset") /\ Reset(Ev.s, Hex(Ev.nonce))
    \/ IsEvent("close") /\ Close(Ev.s)
    \/ IsEvent("crypt") /\ Good /\ Crypt(Ev.s, Hex(Ev.in), Hex(Ev.out))
    \/ IsEvent("skip") /\ Skip(Ev.s, Ev.n)
    \/ IsEvent("jump") /\ Jump(Ev.s, Hex(Ev.blk))
    \/ IsEvent("buf") /\ Good /\ OneShot(Ev.k, Hex(Ev.nonce), Hex(Ev.in), Hex(Ev.out))
    \/ IsEvent("blk") /\ Good /\ Block(Ev.k, Hex(Ev.in), Hex(Ev.out))
    \/ Finished /\ UNCHANGED <<avars, tvars>>
=============================================================================
