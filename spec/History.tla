------------------------------- MODULE History -------------------------------
(* Histories (S23).  One process performs operations one after another; those *)
(* in two steps may be interleaved with others and abandoned.  What an        *)
(* operation returns is a function of its own arguments; the only state it    *)
(* may depend on is that of the handles that were opened and not closed.      *)
(* Handles: a function from numbers to "ready" or "done".                     *)
EXTENDS Integers, Sequences, TLC
Simple == {"enc", "encfail", "dec", "decbad", "decfail", "info", "kdf", "pass"}
None == <<>>
Openable(h, n) == {k \in 0..(n - 1) : k \notin DOMAIN h}
Ready(h) == {k \in DOMAIN h : h[k] = "ready"}
Without(h, k) == [j \in DOMAIN h \ {k} |-> h[j]]
With(h, k, v) == (k :> v) @@ Without(h, k)
\* What can be done next, and the handles then.
Steps(h, n) ==
    {<<o, -1, h>> : o \in Simple}
    \cup {<<"prep", k, With(h, k, "ready")>> : k \in Openable(h, n)}
    \cup {<<"prepfail", k, h>> : k \in Openable(h, n)}
    \cup {<<o, k, With(h, k, "done")>> : o \in {"copy", "copyfail"}, k \in Ready(h)}
    \cup {<<"free", k, Without(h, k)>> : k \in DOMAIN h}
==============================================================================
