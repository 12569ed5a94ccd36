------------------------------ MODULE EncTrace ------------------------------
(* Recorded runs of the real streaming encryption against EncStream, with    *)
(* the bytes themselves.                                                     *)
EXTENDS EncStream, Container, Traces, Hex
VARIABLE salt
Data == HexM(Traces[t].in)
Pw == Hex(Traces[t].pw)
Q == Traces[t].q
Box == Seal(Pw, Hex(salt), Q[1], Q[2], Q[3], Data)
TInit ==
    /\ TrInit /\ salt = ""
    /\ total = Len(Traces[t].in) \div 2
    /\ EStart
TNext ==
    \/ IsEvent("rd") /\ UNCHANGED salt /\ (IF Ev.n > 0 THEN ERead(Ev.n) ELSE IF Ev.n = 0 THEN EEof ELSE EReadFail)
    \/ /\ IsEvent("kdf") /\ EDerive /\ salt' = Ev.salt
       /\ Len(Ev.salt) = 64 /\ Hex(Ev.pw) = Pw
       /\ Ev.N = BPow2(Q[1]) /\ Ev.r = BN(Q[2]) /\ Ev.p = BN(Q[3])
    \/ /\ IsEvent("wr") /\ UNCHANGED salt
       /\ LET d == Hex(Ev.data)
              may == key /\ e + Len(d) <= Producible
          IN EWrite(Len(d), may /\ d = Slice(Box, e, e + Len(d)), Ev.ok = 1)
    \/ IsEvent("ret") /\ EReturn(Ev.rc) /\ UNCHANGED salt
    \/ IsEvent("close") /\ EClose(Ev.ok = 1) /\ UNCHANGED salt
    \/ Finished /\ phase = "closed" /\ UNCHANGED <<evars, tvars, salt>>
=============================================================================
