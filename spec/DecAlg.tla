------------------------------- MODULE DecAlg -------------------------------
(* The block-wise algorithm (read up to Block + SigLen bytes, keep back the last *)
(* SigLen, write the rest), for every way in which reads and writes may be cut   *)
(* or fail; it implements DecStream.                                          *)
EXTENDS DecStream
CONSTANTS Block, MaxLen
VARIABLES pc, held, todo    \* program counter, bytes in the buffer, bytes to write
vars == <<dvars, pc, held, todo>>
AInit == /\ total \in 0..MaxLen
        /\ early \in {OK, EINVAL, 8} /\ keyok \in BOOLEAN /\ sigok \in BOOLEAN
        /\ (total < HeadLen => early # OK)
        /\ (sigok => total >= HeadLen + SigLen)
        /\ Start /\ pc = "head" /\ held = 0 /\ todo = 0
Same == UNCHANGED <<held, todo>>
ReadHead ==
    /\ pc = "head"
    /\ \/ \E n \in 1..HeadLen : c + n <= HeadLen /\ Read(n) /\ pc' = IF c + n = HeadLen THEN "check" ELSE "head"
       \/ Eof /\ pc' = "check"
       \/ ReadFail /\ pc' = "fail"
    /\ Same
Check == pc = "check" /\ early # OK /\ Return(early) /\ pc' = "close" /\ Same
DoDerive == pc = "check" /\ early = OK /\ Derive /\ pc' = "pass" /\ Same
Pass == /\ pc = "pass"
        /\ IF keyok THEN UNCHANGED dvars /\ pc' = "read"
           ELSE Return(EPASS) /\ pc' = "close"
        /\ Same
ReadBody ==
    /\ pc = "read"
    /\ \/ \E n \in 1..(Block + SigLen - held) :
            /\ Read(n)
            /\ held' = held + n
            \* a full buffer, or a short read because the input has ended
            /\ IF held + n > SigLen THEN pc' = "write" /\ todo' = held + n - SigLen
               ELSE pc' = "read" /\ UNCHANGED todo
       \/ Eof /\ pc' = "verify" /\ Same
       \/ ReadFail /\ pc' = "fail" /\ Same
Put ==
    /\ pc = "write"
    /\ \/ \E n \in 1..todo :
            /\ Write(n, TRUE, TRUE)
            /\ todo' = todo - n
            /\ IF todo = n THEN held' = SigLen /\ pc' = "read" ELSE UNCHANGED held /\ pc' = "write"
       \/ \E n \in 0..(todo - 1) : Write(n, TRUE, FALSE) /\ pc' = "fail" /\ Same
Verify == pc = "verify" /\ Return(IF held >= SigLen /\ sigok THEN OK ELSE EINVAL) /\ pc' = "close" /\ Same
Fail == pc = "fail" /\ Return(IF rerr THEN ERDFILE ELSE EWRFILE) /\ pc' = "close" /\ Same
Closing == pc = "close" /\ Close(~werr) /\ pc' = "end" /\ Same
Stop == pc = "end" /\ UNCHANGED vars
ANext == ReadHead \/ Check \/ DoDerive \/ Pass \/ ReadBody \/ Put \/ Verify \/ Fail \/ Closing \/ Stop
Inv == DInv
Refines == [][DNext]_dvars
\* and it always gets to the end: no state but "end" without a step (deadlock
\* is checked)
==============================================================================
