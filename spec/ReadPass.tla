------------------------------- MODULE ReadPass -------------------------------
(* Signals and terminal around passphrase entry (S15), as the process and    *)
(* its surroundings see it.                                                  *)
EXTENDS Integers, FiniteSets
VARIABLES pend,   \* signals received and put off
          now,    \* signals received with their own disposition in force
          done
rvars == <<pend, now, done>>
RInit == pend = {} /\ now = {} /\ done = FALSE
\* own: the disposition found at the start is in force
Receive(s, own) == /\ ~done
                   /\ IF own THEN now' = now \cup {s} /\ UNCHANGED pend ELSE pend' = pend \cup {s} /\ UNCHANGED now
                   /\ UNCHANGED done
\* Something is read from a terminal only without echo.
ReadFrom(tty, echo) == /\ ~done
                       /\ tty => ~echo
                       /\ UNCHANGED rvars
\* A signal takes effect: one that was received, with the terminal as it was,
\* and if it was put off, with all dispositions as they were.
TakesEffect(s, term, disp) ==
    /\ ~done /\ term
    /\ \/ s \in now /\ now' = now \ {s} /\ UNCHANGED pend
       \/ s \notin now /\ s \in pend /\ disp /\ pend' = pend \ {s} /\ UNCHANGED now
    /\ UNCHANGED done
\* Control returns: everything is as it was, and no signal is lost (ign: those
\* whose disposition is to be ignored).
Returns(term, disp, ign) ==
    /\ ~done /\ term /\ disp
    /\ pend \subseteq ign /\ now \subseteq ign
    /\ done' = TRUE /\ UNCHANGED <<pend, now>>
===============================================================================
