------------------------------- MODULE Threads -------------------------------
(* Key derivation and hashing by several threads at once (S25).  What the     *)
(* threads share is what the process has found out about the machine (cpu),   *)
(* and which cores it has chosen (hw: hashing, mix: scrypt); every access to  *)
(* these is a step of its own, and any thread may take the next step.         *)
(*                                                                            *)
(* A thread derives a key: it chooses the core for mixing if that has not     *)
(* been done, which takes derivations that test it; hashes; mixes; hashes     *)
(* again.  A hash chooses the core for hashing if that has not been done,     *)
(* with the portable one as the choice while the others are tested.           *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Ths, Feats, Bads, \* threads; sets of features, and of faulty cores
          Early            \* chosen before it is tested (a mistake)
Needs == [shani |-> <<"shani", "ssse3">>, shasse2 |-> <<"sse2">>, soft |-> <<>>, smixsse2 |-> <<"sse2">>, smixsoft |-> <<>>]
Hashers == <<"shani", "shasse2">>
Mixers == <<"smixsse2", "smixsoft">>
VARIABLES feat, bad,       \* of this machine
          asked, present,  \* features looked for, features found
          hw, mix,         \* the choices
          over,            \* ended, for want of a core that works
          th               \* the threads
vars == <<feat, bad, asked, present, hw, mix, over, th>>
\* pc: what is next; hret: where a hash returns to; aret: where a query of
\* features q returns to, yes or no; i, j: cores being considered; right: are
\* the hashes and the mixing since the start of this derivation right?
Start == [pc |-> "look", hret |-> "", q |-> <<>>, yes |-> "", no |-> "", i |-> 1, j |-> 1, right |-> TRUE]
Init == /\ feat \in Feats /\ bad \in Bads /\ asked = {} /\ present = {} /\ hw = "unset" /\ mix = "unset" /\ over = FALSE
        /\ th = [t \in Ths |-> Start]
machine == <<feat, bad>>
Goes(t, r) == th' = [th EXCEPT ![t] = r]
At(t, pc) == ~over /\ th[t].pc = pc
\* ---- is there each of the features q? ----
Ask(r, q, yes, no) == IF q = <<>> THEN [r EXCEPT !.pc = yes] ELSE [r EXCEPT !.pc = "ask", !.q = q, !.yes = yes, !.no = no]
Found(r) == IF Len(r.q) = 1 THEN [r EXCEPT !.pc = r.yes] ELSE [r EXCEPT !.pc = "ask", !.q = Tail(@)]
Ask1(t) == At(t, "ask") /\ LET r == th[t] IN
           Goes(t, IF r.q[1] \in present THEN Found(r) ELSE [r EXCEPT !.pc = "ask2"]) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Ask2(t) == At(t, "ask2") /\ LET r == th[t] IN
           Goes(t, [r EXCEPT !.pc = IF r.q[1] \in asked THEN "ask5" ELSE "ask3"]) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Ask3(t) == At(t, "ask3") /\ LET r == th[t] IN
           /\ present' = (IF r.q[1] \in feat THEN present \cup {r.q[1]} ELSE present \ {r.q[1]})
           /\ Goes(t, [r EXCEPT !.pc = "ask4"]) /\ UNCHANGED <<machine, asked, hw, mix, over>>
Ask4(t) == At(t, "ask4") /\ LET r == th[t] IN
           asked' = asked \cup {r.q[1]} /\ Goes(t, [r EXCEPT !.pc = "ask5"]) /\ UNCHANGED <<machine, present, hw, mix, over>>
Ask5(t) == At(t, "ask5") /\ LET r == th[t] IN
           Goes(t, IF r.q[1] \in present THEN Found(r) ELSE [r EXCEPT !.pc = r.no]) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
\* ---- hashing ----
Hash(r, ret) == [r EXCEPT !.pc = "hash", !.hret = ret]
Hash1(t) == At(t, "hash") /\ Goes(t, [th[t] EXCEPT !.pc = IF hw = "unset" THEN "hash2" ELSE "hash9"]) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Consider(r) == IF r.j > Len(Hashers) THEN [r EXCEPT !.pc = "hash9"] ELSE Ask(r, Needs[Hashers[r.j]], "htest", "hnext")
Hash2(t) == At(t, "hash2") /\ hw' = "soft" /\ Goes(t, Consider([th[t] EXCEPT !.j = 1])) /\ UNCHANGED <<machine, asked, present, mix, over>>
HNext(t) == At(t, "hnext") /\ Goes(t, Consider([th[t] EXCEPT !.j = @ + 1])) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
HTest(t) == At(t, "htest") /\ LET r == th[t] IN
            /\ IF Early THEN hw' = Hashers[r.j] ELSE UNCHANGED hw
            /\ Goes(t, [r EXCEPT !.pc = IF Hashers[r.j] \in bad THEN "hfail" ELSE "hset"])
            /\ UNCHANGED <<machine, asked, present, mix, over>>
HFail(t) == At(t, "hfail") /\ (IF Early THEN hw' = "soft" ELSE UNCHANGED hw) /\ Goes(t, [th[t] EXCEPT !.pc = "hnext"]) /\ UNCHANGED <<machine, asked, present, mix, over>>
HSet(t) == At(t, "hset") /\ hw' = Hashers[th[t].j] /\ Goes(t, [th[t] EXCEPT !.pc = "hash9"]) /\ UNCHANGED <<machine, asked, present, mix, over>>
Hash9(t) == At(t, "hash9") /\ Goes(t, [th[t] EXCEPT !.pc = th[t].hret, !.right = @ /\ hw \notin bad]) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
\* ---- choosing the core for mixing ----
Derive(r) == Hash([r EXCEPT !.right = TRUE], "mix")
Select(r) == Ask(r, Needs[Mixers[r.i]], "test", "next")
Look(t) == At(t, "look") /\ Goes(t, IF mix = "unset" THEN Select(th[t]) ELSE Derive(th[t])) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Next1(t) == At(t, "next") /\ LET r == th[t] IN
            /\ IF r.i = Len(Mixers) THEN over' = TRUE /\ UNCHANGED th ELSE UNCHANGED over /\ Goes(t, Select([r EXCEPT !.i = @ + 1]))
            /\ UNCHANGED <<machine, asked, present, hw, mix>>
Test(t) == At(t, "test") /\ Goes(t, Hash([th[t] EXCEPT !.right = TRUE], "testmix")) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
TestMix(t) == At(t, "testmix") /\ Goes(t, Hash([th[t] EXCEPT !.right = @ /\ Mixers[th[t].i] \notin bad], "tested")) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Tested(t) == At(t, "tested") /\ LET r == th[t] IN
             /\ IF r.right THEN mix' = Mixers[r.i] /\ Goes(t, Derive(r)) ELSE UNCHANGED mix /\ Goes(t, [r EXCEPT !.pc = "next"])
             /\ UNCHANGED <<machine, asked, present, hw, over>>
\* ---- the derivation itself ----
Mix(t) == At(t, "mix") /\ Goes(t, Hash([th[t] EXCEPT !.right = @ /\ mix \notin (bad \cup {"unset"})], "done")) /\ UNCHANGED <<machine, asked, present, hw, mix, over>>
Next == \E t \in Ths : \/ Ask1(t) \/ Ask2(t) \/ Ask3(t) \/ Ask4(t) \/ Ask5(t) \/ Hash1(t) \/ Hash2(t) \/ HNext(t) \/ HTest(t) \/ HFail(t) \/ HSet(t)
                         \/ Hash9(t) \/ Look(t) \/ Next1(t) \/ Test(t) \/ TestMix(t) \/ Tested(t) \/ Mix(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
\* ---- what is claimed ----
Has(c) == \A k \in 1..Len(Needs[c]) : Needs[c][k] \in feat
First(s) == LET ok == {k \in 1..Len(s) : Has(s[k]) /\ s[k] \notin bad} IN IF ok = {} THEN "none" ELSE s[CHOOSE k \in ok : \A m \in ok : k <= m]
BestHasher == First(Hashers \o <<"soft">>)
Right == \A t \in Ths : th[t].pc = "done" => th[t].right
Chosen == /\ hw \in {"unset", "soft", BestHasher}
          /\ mix \in {"unset", First(Mixers)}
          /\ over => First(Mixers) = "none"
          /\ First(Mixers) = "none" => \A t \in Ths : th[t].pc # "done"
Ends == <>(over \/ \A t \in Ths : th[t].pc = "done")
\* a choice is made once: afterwards it may only be made again, the same
Settled == [][(mix # "unset" => mix' = mix) /\ (hw \notin {"unset", "soft"} => hw' \in {hw, "soft"})]_vars
F3 == {"shani", "ssse3", "sse2"}
AllFeats == SUBSET F3
AllBads == SUBSET {"shani", "shasse2", "smixsse2", "smixsoft"}
Modern == {F3}
SomeBads == {{}, {"smixsse2"}, {"shani"}, {"shani", "shasse2"}}
==============================================================================
