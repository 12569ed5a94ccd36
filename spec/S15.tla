--------------------------------- MODULE S15 ---------------------------------
(* Recorded passphrase entries are behaviours of ReadPass.  Trace t has ign,  *)
(* the ignored signals; keep = 0: restoring the terminal was made to fail.    *)
EXTENDS ReadPass, Traces
TInit == TrInit /\ RInit
Term(x) == x # 0 \/ Traces[t].keep = 0
Ignored == {Traces[t].ign[k] : k \in 1..Len(Traces[t].ign)}
TNext ==
    \/ IsEvent("sig") /\ Receive(Ev.s, Ev.own = 1)
    \/ IsEvent("read") /\ ReadFrom(Ev.tty = 1, Ev.echo # 0)
    \/ IsEvent("got") /\ UNCHANGED rvars
    \/ IsEvent("deliv") /\ Ev.s \notin Ignored /\ Ev.in = 1 /\ TakesEffect(Ev.s, Term(Ev.term), Ev.disp = 1)
    \/ IsEvent("ret") /\ Returns(Term(Ev.term), Ev.disp = 1, Ignored)
    \/ Finished /\ done /\ UNCHANGED <<rvars, tvars>>
==============================================================================
