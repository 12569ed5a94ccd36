--------------------------------- MODULE S22 ---------------------------------
(* Memory and secrets (S22).  A recorded operation is a behaviour of this     *)
(* machine: blocks are allocated and released; one that is released holds no  *)
(* secret; in the end nothing is left, on the stack neither, but what is      *)
(* handed over (keep blocks).                                                 *)
EXTENDS Traces, FiniteSets
VARIABLES live, done
TInit == TrInit /\ live = {} /\ done = FALSE
Alloc(id) == ~done /\ id \notin live /\ live' = live \cup {id} /\ UNCHANGED done
Free(id, dirty) == ~done /\ id \in live /\ dirty = 0 /\ live' = live \ {id} /\ UNCHANGED done
\* Another step hands over what it keeps.
Step(keep, stack) == ~done /\ Cardinality(live) = keep /\ stack = 0 /\ UNCHANGED <<live, done>>
End(n, stack) == ~done /\ live = {} /\ n = 0 /\ stack = 0 /\ done' = TRUE /\ UNCHANGED live
TNext ==
    \/ IsEvent("alloc") /\ Alloc(Ev.id)
    \/ IsEvent("free") /\ Free(Ev.id, Ev.dirty)
    \/ IsEvent("allocfail") /\ UNCHANGED <<live, done>>
    \/ IsEvent("step") /\ Step(Ev.keep, Ev.stack)
    \/ IsEvent("end") /\ End(Ev.live, Ev.stack)
    \/ Finished /\ done /\ UNCHANGED <<live, done, tvars>>
==============================================================================
