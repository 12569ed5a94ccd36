----------------------------- MODULE DrbgTrace -----------------------------
EXTENDS Drbg, Traces, Hex
TInit == TrInit /\ DInit
Same == UNCHANGED dvars
\* Random words of the CPU, where these were recorded singly: the result is
\* what the CPU delivered, and it failed iff the CPU did.
StepsOk(e) ==
    IF "steps" \notin DOMAIN e THEN TRUE ELSE
    /\ (e.ok = 1) = \A i \in 1..Len(e.steps) : e.steps[i].ok = 1
    /\ e.ok = 1 => FoldLeft(LAMBDA a, x : a \o Hex(x.data), <<>>, e.steps) = Hex(e.data)
TNext ==
    \/ IsEvent("call") /\ Request(Ev.n)
    \/ IsEvent("rndopen") /\ IF Ev.ok = 1 THEN Same ELSE SysError
    \/ IsEvent("rnd") /\ IF Ev.got > 0 THEN Entropy(Hex(Ev.data)) ELSE SysError
    \/ IsEvent("allocfail") /\ SysError
    \/ IsEvent("rdrand") /\ StepsOk(Ev) /\ CpuRandom(Ev.ok = 1, Hex(Ev.data))
    \/ IsEvent("ret") /\ Ev.guards = 1 /\ Done(Ev.rc = 0, Hex(Ev.out))
    \* an encryption: 32 bytes for the salt, which is at bytes 16..47 of the
    \* output; with no entropy there is no output and no key is derived
    \/ /\ IsEvent("enc")
       /\ IF Ev.rc = 0 THEN Done(TRUE, Hex(Ev.salt))
          ELSE Done(FALSE, <<>>) /\ Ev.rc = 4 /\ Ev.outlen = 0 /\ Ev.kdf = 0
    \* an encryption that fails for another reason: the salt drawn for it (with
    \* which a key is derived) is gone
    \/ /\ IsEvent("encfail") /\ Ev.rc # 0
       /\ IF Ev.kdf > 0 THEN Done(TRUE, Hex(Ev.salt)) ELSE Done(FALSE, <<>>) /\ Ev.rc = 4
    \* a plain read of operating-system entropy
    \/ /\ IsEvent("os")
       /\ UNCHANGED dvars
       /\ LET got == FoldLeft(LAMBDA a, x : a \o Hex(x), <<>>, Ev.got)
          IN IF Ev.rc = 0 THEN got = Hex(Ev.out) /\ Len(got) = Ev.n
             ELSE Len(got) < Ev.n \/ Ev.err = 1
    \/ Finished /\ ~busy /\ UNCHANGED <<dvars, tvars>>
=============================================================================
