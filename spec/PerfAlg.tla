------------------------------- MODULE PerfAlg -------------------------------
(* The algorithm of the measurement, as in scryptenc_cpuperf, in an           *)
(* environment with a true time `now`, of which the clock shows multiples of  *)
(* Tick, with work that takes 0 to 2 units each time, and with clocks that    *)
(* are missing or fail.  It is a behaviour of Perf, and when it succeeds the  *)
(* time it found is off by less than one tick, which is less than the time    *)
(* itself.                                                                    *)
EXTENDS Perf
CONSTANTS Tick, MaxNow
VARIABLES pc, now, begun, mode
avars == <<pc, now, begun, mode>>
Shown == BN(now - (now % Tick))
AInit == PInit /\ pc = "res" /\ now \in 0..(2 * Tick) /\ begun = 0 /\ mode \in {"ok", "nomono"}
Pass(n) == now' \in {x \in now..(now + n) : x <= MaxNow} /\ UNCHANGED <<begun, mode>>
Stay == UNCHANGED <<now, begun, mode>>
GetRes == /\ pc = "res" /\ Stay
          /\ \/ mode = "ok" /\ Resolution(0, BN(Tick * 1000)) /\ pc' = "st1"
             \/ mode = "nomono" /\ pend = "no" /\ ResError(0, ENOSYS) /\ pc' = pc
             \/ mode = "nomono" /\ pend = "res" /\ Resolution(1, BN(Tick * 1000)) /\ pc' = "st1"
             \/ ResError(IF mode = "ok" THEN 0 ELSE 1, 5) /\ pc' = "end"
Read(here, next) ==
          /\ pc = here
          /\ \/ mode = "ok" /\ Time(0, Shown) /\ pc' = next
             \/ mode = "nomono" /\ pend = "no" /\ TimeError(0, ENOSYS) /\ pc' = pc
             \/ mode = "nomono" /\ pend = "time" /\ Time(1, Shown) /\ pc' = next
             \/ TimeError(IF mode = "ok" THEN 0 ELSE 1, 5) /\ pc' = "end"
DoWork(here, next) ==
          /\ pc = here
          /\ \/ Work(4) /\ pc' = next /\ Pass(2)
             \/ WorkError /\ pc' = "end" /\ Stay
Ticked == pc = "ticked" /\ pc' = (IF phase = "count" THEN "st2" ELSE "w1") /\ Stay /\ UNCHANGED pvars
Tested == pc = "tested" /\ pc' = (IF phase = "done" THEN "end" ELSE "w2") /\ Stay /\ UNCHANGED pvars
ANext == GetRes
      \/ (Read("st1", "w1") /\ Stay)
      \/ DoWork("w1", "r1") \/ (Read("r1", "ticked") /\ Stay) \/ Ticked
      \/ (Read("st2", "w2") /\ begun' = now /\ UNCHANGED <<now, mode>>)
      \/ DoWork("w2", "r2") \/ (Read("r2", "tested") /\ Stay /\ (phase' = "done" => Longer(elapsed'))) \/ Tested
      \/ (pc = "end" /\ UNCHANGED <<pvars, avars>>)
Elapsed == IF elapsed = B0 THEN 0 ELSE elapsed[1]
Sound == phase = "done" =>
    /\ BMul(elapsed, Thousand) # res /\ Longer(elapsed)
    /\ now - begun < Elapsed + Tick /\ now - begun > Elapsed - Tick
    /\ ops # B0 /\ ops[1] % 4 = 0
Ends == pc = "end" => phase \in {"done", "failed"} /\ (phase = "failed" => fail \in {ECLOCK, EKEY})
Bounded == ops = B0 \/ ops[1] <= 40
Counts == phase = "count" => start # None
===============================================================================
