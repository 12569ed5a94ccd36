------------------------------- MODULE Splice -------------------------------
(* The format against an adversary who owns several containers and puts       *)
(* together new ones from their parts (S05, S06), symbolically: signatures     *)
(* and checksums are terms that can be copied but, without the key, not made  *)
(* (a checksum needs no key and can).  Forged says that nothing but what a    *)
(* holder of the passphrase made decrypts; TLC goes through all assemblies    *)
(* and writes them out with their verdicts, and the check puts them together  *)
(* from real containers and decrypts them.                                    *)
EXTENDS Results, Sequences, FiniteSets, Json, IOUtils, SequencesExt
\* Containers: passphrase, salt, parameters, data.  Some share passphrase, salt
\* and parameters, and so keys; some share data.
Boxes == <<[pw |-> 1, salt |-> 1, q |-> 1, data |-> 1],
           [pw |-> 1, salt |-> 1, q |-> 1, data |-> 2],
           [pw |-> 1, salt |-> 2, q |-> 1, data |-> 1],
           [pw |-> 1, salt |-> 1, q |-> 2, data |-> 1],
           [pw |-> 2, salt |-> 1, q |-> 1, data |-> 1]>>
N == Len(Boxes)
\* ---- terms ----
Core(b) == <<b.salt, b.q>>
Sum(core) == <<"sum", core>>
Key(pw, core) == <<"key", pw, core>>
HSig(k, core, sum) == <<"mac", k, core, sum>>
Body(k, data) == <<"ctr", k, data>>
TSig(k, core, sum, hsig, body) == <<"mac", k, core, sum, hsig, body>>
KeyOf(b) == Key(b.pw, Core(b))
HSigOf(b) == HSig(KeyOf(b), Core(b), Sum(Core(b)))
BodyOf(b) == Body(KeyOf(b), b.data)
TSigOf(b) == TSig(KeyOf(b), Core(b), Sum(Core(b)), HSigOf(b), BodyOf(b))
\* ---- assemblies: a part from each; sum = 0: computed anew; salt and
\* parameters may come from different containers; body = 0: cut short, body
\* = N + 1: two bodies one after the other ----
Assemblies == [salt : {1, 3}, q : {1, 4}, sum : 0..N, hsig : 1..N, body : 0..(N + 1), tsig : 1..N]
CoreA(a) == <<Boxes[a.salt].salt, Boxes[a.q].q>>
SumA(a) == IF a.sum = 0 THEN Sum(CoreA(a)) ELSE Sum(Core(Boxes[a.sum]))
HSigA(a) == HSigOf(Boxes[a.hsig])
BodyA(a) == IF a.body \in 1..N THEN BodyOf(Boxes[a.body]) ELSE <<"other", a.body>>
TSigA(a) == TSigOf(Boxes[a.tsig])
Says(pw, a) ==
    LET k == Key(pw, CoreA(a))
    IN IF SumA(a) # Sum(CoreA(a)) THEN EINVAL
       ELSE IF HSigA(a) # HSig(k, CoreA(a), SumA(a)) THEN EPASS
       ELSE IF TSigA(a) # TSig(k, CoreA(a), SumA(a), HSigA(a), BodyA(a)) THEN EINVAL
       ELSE OK
Genuine(pw, a) == \E i \in 1..N : /\ Boxes[i].pw = pw /\ CoreA(a) = Core(Boxes[i]) /\ SumA(a) = Sum(CoreA(a))
                                  /\ HSigA(a) = HSigOf(Boxes[i]) /\ BodyA(a) = BodyOf(Boxes[i]) /\ TSigA(a) = TSigOf(Boxes[i])
VARIABLES asm, pw
SpInit == asm \in Assemblies /\ pw \in 1..3
SpNext == FALSE /\ UNCHANGED <<asm, pw>>
\* only what was made decrypts, and it does
Forged == (Says(pw, asm) = OK) = Genuine(pw, asm)
\* Those that get beyond the checksum, and some that do not.
Worth(a) == SumA(a) = Sum(CoreA(a)) \/ (a.hsig = a.tsig /\ a.body = a.tsig)
Chosen == {a \in Assemblies : Worth(a) /\ (a.sum # 0 => \A j \in 0..(a.sum - 1) : j = 0 \/ Core(Boxes[j]) # Core(Boxes[a.sum]))}
Out == {[asm |-> a, pw |-> p, says |-> Says(p, a)] : a \in Chosen, p \in 1..3}
ASSUME ndJsonSerialize(IOEnv.OUT, SetToSeq(Out))
==============================================================================
