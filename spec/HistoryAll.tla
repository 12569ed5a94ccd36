------------------------------ MODULE HistoryAll ------------------------------
(* All histories of Long operations with N handles, as the sequences of       *)
(* operations to be performed by the real code.                               *)
EXTENDS History, Json, IOUtils, FiniteSets, SequencesExt
CONSTANTS Long, N
Grow(s) == {[h |-> q[3], ops |-> Append(s.ops, <<q[1], q[2]>>)] : q \in Steps(s.h, N)}
RECURSIVE Runs(_)
Runs(k) == IF k = 0 THEN {[h |-> None, ops |-> <<>>]} ELSE UNION {Grow(s) : s \in Runs(k - 1)}
\* (the first handle is opened first)
InOrder(ops) == \A i \in 1..Len(ops) : (ops[i][1] \in {"prep", "prepfail"} /\ ops[i][2] > 0) => \E j \in 1..(i - 1) : ops[j] = <<"prep", 0>>
All == {s.ops : s \in {r \in Runs(Long) : InOrder(r.ops)}}
AllSeq == SetToSeq(All)
ASSUME ndJsonSerialize(IOEnv.OUT, [i \in 1..Len(AllSeq) |-> [ops |-> AllSeq[i]]])
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
===============================================================================
