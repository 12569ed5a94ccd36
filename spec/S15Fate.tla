------------------------------- MODULE S15Fate -------------------------------
(* What becomes of the whole process when signals that end or stop it arrive  *)
(* during passphrase entry (S15).                                             *)
(*   sent   signals sent, numbered as in readpass.c; ign those ignored;       *)
(*   fate   what its parent saw, in order: [k, s, term] with k "stop", "kill" *)
(*          or "exit" (s: the status), term: the terminal is as it was        *)
(*   late   nothing became of it, although a signal that is not ignored was   *)
(*          sent while it waited for input, until more had been typed         *)
(*   race   the signals were sent one after another from outside, so that all *)
(*          was possibly over before the later ones                           *)
(*   quiet  the terminal echoed nothing that was typed                        *)
EXTENDS Cases, FiniteSets
Fatal == 0..5       \* ALRM HUP INT PIPE QUIT TERM
Stops == 6..8       \* TSTP TTIN TTOU
SetOf(x) == {x[k] : k \in 1..Len(x)}
CountOf(x, s) == Cardinality({k \in 1..Len(x) : x[k] = s})
OkFor(c, sent) ==
    LET n == Len(c.fate)
        real == SetOf(sent) \ SetOf(c.ign)
        stopped == {c.fate[k].s : k \in {m \in 1..n : c.fate[m].k = "stop"}}
    IN /\ n > 0
       /\ c.late = 0
       \* nothing happens with the terminal changed
       /\ \A k \in 1..n : c.fate[k].term = 1
       /\ \A k \in 1..(n - 1) : c.fate[k].k = "stop"
       \* nothing happens that was not asked for
       /\ stopped \subseteq real
       /\ \A s \in stopped : Cardinality({k \in 1..n : c.fate[k].k = "stop" /\ c.fate[k].s = s}) <= CountOf(sent, s)
       \* no signal is lost
       /\ IF real \cap Fatal # {} THEN c.fate[n].k = "kill" /\ c.fate[n].s \in real \cap Fatal
          ELSE c.fate[n].k = "exit" /\ stopped = real
       /\ c.quiet = 1
Ok(c) == OkFor(c, c.sent) \/ (c.race = 1 /\ \E m \in 1..(Len(c.sent) - 1) : OkFor(c, SubSeq(c.sent, 1, m)))
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
