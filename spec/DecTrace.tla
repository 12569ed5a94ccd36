------------------------------ MODULE DecTrace ------------------------------
(* Recorded runs of the real streaming decryption against DecStream, with    *)
(* the bytes themselves.                                                     *)
EXTENDS DecStream, Container, Traces, Hex
Input == HexM(Traces[t].in)
Pw == Hex(Traces[t].pw)
TInit ==
    /\ TrInit
    /\ total = Len(Traces[t].in) \div 2
    /\ early = EarlyVerdict(Input, Traces[t].lim)
    /\ keyok = (early = OK /\ GoodHeadSig(Pw, Input))
    /\ sigok = (early = OK /\ keyok /\ GoodSig(Pw, Input))
    /\ Start
\* Bytes e+1..e+n of the decryption of everything after the header.
Right(data) ==
    LET n == Len(data)
        off == e % 16
    IN data = FAesCtr(Take(DKey(Pw, Input), 32), Zero8, BE(e \div 16, 8), off, Slice(Input, 96 + e, 96 + e + n))
KdfOfHeader ==
    /\ Ev.N = BPow2(HLogN(Input)) /\ Ev.r = HR(Input) /\ Ev.p = HP(Input)
    /\ Hex(Ev.pw) = Pw /\ Hex(Ev.salt) = SaltOf(Input)
TNext ==
    \/ IsEvent("rd") /\ (IF Ev.n > 0 THEN Read(Ev.n) ELSE IF Ev.n = 0 THEN Eof ELSE ReadFail)
    \/ IsEvent("kdf") /\ Derive /\ KdfOfHeader
    \/ IsEvent("wr") /\ LET d == Hex(Ev.data)
                            may == key /\ keyok /\ e + Len(d) <= Releasable
                        IN Write(Len(d), may /\ Right(d), Ev.ok = 1)
    \/ IsEvent("prep") /\ Prep(Ev.rc)
    \/ IsEvent("ret") /\ Return(Ev.rc)
    \/ IsEvent("close") /\ Close(Ev.ok = 1)
    \* what is seen of the command from outside
    \/ Traces[t].cli = 1 /\ Derive /\ UNCHANGED tvars
    \/ IsEvent("exit") /\ Exit(Ev.rc)
    \/ Finished /\ phase = "closed" /\ UNCHANGED <<dvars, tvars>>
=============================================================================
