------------------------------- MODULE EncAlg -------------------------------
(* The block-wise encryption algorithm, with an output buffer of any size    *)
(* that may be written out at any time; it implements EncStream.             *)
EXTENDS EncStream
CONSTANTS Block, MaxLen
VARIABLES pc, buf        \* program counter, bytes in the output buffer
vars == <<evars, pc, buf>>
AInit == total \in 0..MaxLen /\ EStart /\ pc = "setup" /\ buf = 0
Setup == pc = "setup" /\ EDerive /\ buf' = HeadLen /\ pc' = "flush1"
\* Any part of the buffer is written out, or writing fails; then on to nxt.
Flush(here, nxt) ==
    /\ pc = here
    /\ \/ \E n \in 1..buf : EWrite(n, TRUE, TRUE) /\ buf' = buf - n /\ pc' = here
       \/ \E n \in 0..(buf - 1) : EWrite(n, TRUE, FALSE) /\ buf' = 0 /\ pc' = "fail"
       \/ UNCHANGED <<evars, buf>> /\ pc' = nxt
ReadBlock ==
    /\ pc = "read"
    /\ \/ \E n \in 1..Block : ERead(n) /\ buf' = buf + n /\ pc' = "flush1"
       \/ EEof /\ buf' = buf + SigLen /\ pc' = "flush2"
       \/ EReadFail /\ UNCHANGED buf /\ pc' = "fail"
Fin == pc = "ok" /\ EReturn(OK) /\ UNCHANGED buf /\ pc' = "close"
Fail == pc = "fail" /\ EReturn(IF rerr THEN ERDFILE ELSE EWRFILE) /\ UNCHANGED buf /\ pc' = "close"
\* Closing writes out what is left.
Closing ==
    /\ pc = "close"
    /\ IF buf = 0 THEN EClose(~werr) /\ UNCHANGED buf /\ pc' = "end"
       ELSE \/ EWrite(buf, TRUE, TRUE) /\ buf' = 0 /\ pc' = "close"
            \/ \E n \in 0..(buf - 1) : EWrite(n, TRUE, FALSE) /\ buf' = 0 /\ pc' = "close"
Stop == pc = "end" /\ UNCHANGED vars
ANext == Setup \/ Flush("flush1", "read") \/ Flush("flush2", "ok") \/ ReadBlock \/ Fin \/ Fail \/ Closing \/ Stop
Inv == EInv
Refines == [][ENext]_evars
==============================================================================
