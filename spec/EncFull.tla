------------------------------- MODULE EncFull -------------------------------
(* EncAlg (see there) with the sizes of the program and inputs of any length, *)
(* for Apalache: FInd is an inductive invariant, implies EInv of EncStream,   *)
(* and implies that every step which the algorithm takes next is one that     *)
(* EncStream allows (Can).                                                    *)
EXTENDS EncStream
Block == 65536
VARIABLES
    \* @type: Str;
    pc,
    \* @type: Int;
    buf
FConst == HeadLen = 96 /\ SigLen = 32
FInit == total \in Int /\ total >= 0 /\ EStart /\ pc = "setup" /\ buf = 0
Flush(here, nxt) ==
    /\ pc = here
    /\ \/ \E n \in Int : n >= 1 /\ n <= buf /\ EWrite(n, TRUE, TRUE) /\ buf' = buf - n /\ pc' = here
       \/ \E n \in Int : n >= 0 /\ n < buf /\ EWrite(n, TRUE, FALSE) /\ buf' = 0 /\ pc' = "fail"
       \/ UNCHANGED <<evars, buf>> /\ pc' = nxt
FNext ==
    \/ pc = "setup" /\ EDerive /\ buf' = HeadLen /\ pc' = "flush1"
    \/ Flush("flush1", "read")
    \/ Flush("flush2", "ok")
    \/ /\ pc = "read"
       /\ \/ \E n \in Int : n >= 1 /\ n <= Block /\ ERead(n) /\ buf' = buf + n /\ pc' = "flush1"
          \/ EEof /\ buf' = buf + SigLen /\ pc' = "flush2"
          \/ EReadFail /\ UNCHANGED buf /\ pc' = "fail"
    \/ pc = "ok" /\ EReturn(OK) /\ UNCHANGED buf /\ pc' = "close"
    \/ pc = "fail" /\ EReturn(IF rerr THEN ERDFILE ELSE EWRFILE) /\ UNCHANGED buf /\ pc' = "close"
    \/ pc = "close" /\ buf = 0 /\ EClose(~werr) /\ UNCHANGED buf /\ pc' = "end"
    \/ /\ pc = "close" /\ buf > 0
       /\ \/ EWrite(buf, TRUE, TRUE) /\ buf' = 0 /\ pc' = "close"
          \/ \E n \in Int : n >= 0 /\ n < buf /\ EWrite(n, TRUE, FALSE) /\ buf' = 0 /\ pc' = "close"
    \/ pc = "end" /\ UNCHANGED <<evars, pc, buf>>

FShape ==
    /\ total \in Int /\ c \in Int /\ e \in Int /\ buf \in Int /\ rc \in -1..15
    /\ eof \in BOOLEAN /\ rerr \in BOOLEAN /\ werr \in BOOLEAN /\ key \in BOOLEAN
    /\ phase \in {"run", "done", "closed"}
    /\ pc \in {"setup", "flush1", "flush2", "read", "ok", "fail", "close", "end"}
FInd ==
    /\ 0 <= c /\ c <= total /\ 0 <= e /\ 0 <= buf
    /\ (eof => c = total)
    /\ (phase = "run" <=> pc \notin {"close", "end"}) /\ (phase = "closed" <=> pc = "end")
    /\ (pc = "setup" => ~key /\ e = 0 /\ c = 0 /\ buf = 0 /\ ~eof)
    /\ (pc # "setup" => key)
    /\ (pc \in {"setup", "flush1", "read", "flush2", "ok"} => ~rerr /\ ~werr)
    \* what has not been written is in the buffer
    /\ (pc \in {"flush1", "read"} => ~eof /\ e + buf = HeadLen + c)
    /\ (pc \in {"flush2", "ok"} => eof /\ e + buf = HeadLen + c + SigLen)
    /\ (pc = "fail" => rerr \/ werr)
    /\ (~werr => e + buf <= Producible)
    /\ (werr => buf = 0)
    /\ (rerr => ~eof)
    /\ (pc # "setup" => e <= Producible)
    /\ (pc = "end" => buf = 0)
    /\ (werr => e < HeadLen + total + SigLen)
    /\ ((rc = OK /\ phase # "run") => eof /\ ~rerr)
    /\ ((rc = OK /\ phase = "done" /\ ~werr) => e + buf = HeadLen + total + SigLen)
    /\ (phase # "run" /\ rc # OK => rerr \/ werr)
FIndInit == FShape /\ FInd
Can ==
    /\ pc = "setup" => phase = "run" /\ ~key
    /\ pc = "read" => phase = "run"
    /\ pc \in {"flush1", "flush2"} => phase = "run" /\ key /\ e + buf <= Producible
    /\ pc = "ok" => key /\ eof /\ ~rerr /\ ~werr
    /\ pc = "fail" => phase = "run" /\ (rerr \/ werr)
    /\ (pc = "close" /\ buf > 0) => phase = "done" /\ key /\ e + buf <= Producible
    /\ (pc = "close" /\ buf = 0) => phase = "done" /\ ((rc = OK /\ ~werr) => e = total + HeadLen + SigLen)
FInv == FInd /\ EInv /\ Can
==============================================================================
