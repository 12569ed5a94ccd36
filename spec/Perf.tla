--------------------------------- MODULE Perf ---------------------------------
(* Measuring the speed of the CPU (S12).  Work -- key derivations of known    *)
(* cost -- and readings of a clock alternate.  Readings before the first tick *)
(* only find the tick; what counts is the work done after it, from the last   *)
(* reading before that work to the first reading that is later by more than   *)
(* the resolution of the clock.  Times are microseconds, as natural numbers   *)
(* of any size (BigNat); the resolution is in nanoseconds.                    *)
EXTENDS BigNat, Results
None == <<-1>>
VARIABLES phase,    \* "tick", "count", "done", "failed"
          res,      \* resolution, or None before it is known
          start,    \* reading that counts as the start, or None
          ops,      \* core operations since then (BigNat)
          since,    \* has there been work since the last reading?
          elapsed,  \* what the measurement took
          nomono,   \* the system does not support the monotonic clock
          pend,     \* the real-time clock has to be asked: "no", "time", "res"
          fail      \* the result, after a failure
pvars == <<phase, res, start, ops, since, elapsed, nomono, pend, fail>>
PInit == /\ phase = "tick" /\ res = None /\ start = None /\ ops = B0 /\ since = FALSE
         /\ elapsed = B0 /\ nomono = FALSE /\ pend = "no" /\ fail = OK
ENOSYS == 38
EINVALNO == 22
Unsupported(e) == e \in {ENOSYS, EINVALNO}
Running == phase \in {"tick", "count"}
Thousand == <<1000>>

\* d microseconds against the resolution.  The arithmetic is not exact, so
\* that equality counts only for whole seconds.
Million == BN(1000000)
Longer(d) == BCmp(BMul(d, Thousand), res) > 0
Equal(d) == BMul(d, Thousand) = res
Whole(d) == BMod(d, Million) = B0

Fail(code) == phase' = "failed" /\ fail' = code /\ UNCHANGED <<res, start, ops, since, elapsed, nomono, pend>>
Keep == UNCHANGED <<elapsed, res, nomono, fail>> /\ pend' = "no"

\* A reading of us microseconds.
Reading(us) ==
    /\ Keep /\ since' = FALSE
    /\ CASE start = None -> start' = us /\ UNCHANGED <<phase, ops>>
         [] start # None /\ phase = "tick" ->
                IF BLt(start, us) THEN phase' = "count" /\ start' = us /\ ops' = B0 ELSE UNCHANGED <<phase, start, ops>>
         [] start # None /\ phase = "count" /\ ops = B0 -> start' = us /\ UNCHANGED <<phase, ops>>
         [] OTHER -> FALSE
\* A reading that decides whether the measurement has taken long enough.
Continue(us) ==
    /\ phase = "count" /\ ops # B0 /\ res # None
    /\ Keep /\ since' = FALSE
    /\ \/ BLe(us, start)
       \/ BLt(start, us) /\ LET d == BSub(us, start) IN ~Longer(d)
    /\ UNCHANGED <<phase, start, ops>>
Enough(us) ==
    /\ phase = "count" /\ ops # B0 /\ res # None
    /\ BLt(start, us)
    /\ LET d == BSub(us, start) IN (Longer(d) \/ (Equal(d) /\ ~Whole(d))) /\ elapsed' = d
    /\ phase' = "done" /\ since' = FALSE /\ pend' = "no"
    /\ UNCHANGED <<res, start, ops, nomono, fail>>

\* The clock (0 monotonic, 1 real time) is read: success or error e.
AskTime(c) == Running /\ (c = 0 => pend = "no") /\ (c = 1 => nomono /\ pend # "res")
Time(c, us) == AskTime(c) /\ (Reading(us) \/ Continue(us) \/ Enough(us))
TimeError(c, e) ==
    /\ AskTime(c)
    /\ IF c = 0 /\ Unsupported(e)
       THEN nomono' = TRUE /\ pend' = "time" /\ UNCHANGED <<phase, res, start, ops, since, elapsed, fail>>
       ELSE Fail(ECLOCK)
AskRes(c) == Running /\ (c = 0 => pend = "no") /\ (c = 1 => nomono /\ pend # "time")
Resolution(c, ns) == AskRes(c) /\ res' = ns /\ pend' = "no" /\ UNCHANGED <<phase, start, ops, since, elapsed, nomono, fail>>
ResError(c, e) ==
    /\ AskRes(c)
    /\ IF c = 0 /\ Unsupported(e)
       THEN nomono' = TRUE /\ pend' = "res" /\ UNCHANGED <<phase, res, start, ops, since, elapsed, fail>>
       ELSE Fail(ECLOCK)
\* Work of n core operations.
Work(n) ==
    /\ Running /\ pend = "no" /\ start # None /\ ~since
    /\ since' = TRUE
    /\ ops' = IF phase = "count" THEN BAdd(ops, BN(n)) ELSE B0
    /\ UNCHANGED <<phase, res, start, elapsed, nomono, pend, fail>>
\* n times (a natural number of any size) work of c core operations and a
\* reading, always of us microseconds.
Cycles(n, c, us) ==
    /\ Running /\ pend = "no" /\ start # None /\ ~since
    /\ IF phase = "tick" THEN ~BLt(start, us) /\ ops' = B0
       ELSE /\ res # None
            /\ BLe(us, start) \/ LET d == BSub(us, start) IN ~Longer(d)
            /\ ops' = BAdd(ops, BMul(n, BN(c)))
    /\ UNCHANGED <<phase, res, start, since, elapsed, nomono, pend, fail>>
WorkError == Running /\ pend = "no" /\ Fail(EKEY)
================================================================================
