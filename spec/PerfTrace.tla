------------------------------ MODULE PerfTrace ------------------------------
(* Recorded measurements of the real code against Perf.                      *)
EXTENDS Perf, Traces
TInit == TrInit /\ PInit
Micro(ns) == BDivD(ns, 1000)[1]
\* |num/den * d / 10^6 - ops| within what rounding of the elapsed time, whose
\* parts are the seconds and the microseconds, allows.
Dist(a, b) == IF BLe(a, b) THEN BSub(b, a) ELSE BSub(a, b)
SpeedOK(num, den) ==
    LET x == BMul(num, elapsed)
        y == BMul(BMul(ops, Million), den)
    IN num # B0 /\ BLe(BMul(Dist(x, y), BPow2(49)), BAdd(BMul(num, BAdd(Million, elapsed)), y))
Cores(e) == 4 * e.N * e.r * e.p
\* Where both are possible, whether this reading ends the measurement shows
\* in what follows.
Last == l < Len(Traces[t].ev) /\ Traces[t].ev[l + 1].e = "ret"
TNext ==
    \/ IsEvent("clk") /\ IF Ev.ok = 1 THEN Time(Ev.c, Micro(Ev.ns)) /\ (phase' = "done") = Last ELSE TimeError(Ev.c, Ev.err)
    \/ IsEvent("res") /\ IF Ev.ok = 1 THEN Resolution(Ev.c, Ev.ns) ELSE ResError(Ev.c, Ev.err)
    \/ IsEvent("work") /\ IF Ev.ok = 1 THEN Work(Cores(Ev)) ELSE WorkError
    \/ IsEvent("rep") /\ Cycles(Ev.n, Cores(Ev), Micro(Ev.ns))
    \/ IsEvent("ret") /\ UNCHANGED pvars
         /\ \/ phase = "failed" /\ Ev.rc = fail /\ fail # OK
            \/ phase = "done" /\ Ev.rc = OK /\ SpeedOK(Ev.num, Ev.den)
    \* a single reading, or the resolution, asked for by itself
    \/ /\ IsEvent("gottime") /\ UNCHANGED pvars
       /\ \/ Ev.rc = 0 /\ phase = "tick" /\ pend = "no" /\ start = BAdd(BMul(Ev.sec, Million), BN(Ev.usec)) /\ Ev.usec < 1000000
          \/ Ev.rc # 0 /\ phase = "failed"
    \/ /\ IsEvent("gotres") /\ UNCHANGED pvars
       /\ \/ Ev.rc = 0 /\ phase = "tick" /\ pend = "no" /\ res # None
             /\ LET x == BMul(Ev.num, BN(1000000000)) IN BLe(BMul(Dist(x, BMul(res, Ev.den)), BPow2(50)), x)
          \/ Ev.rc # 0 /\ phase = "failed"
    \/ Finished /\ UNCHANGED <<pvars, tvars>>
==============================================================================
