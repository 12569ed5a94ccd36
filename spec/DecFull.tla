------------------------------- MODULE DecFull -------------------------------
(* DecAlg (see there) with the sizes of the program and inputs of any length, *)
(* for Apalache: FInd is an inductive invariant, implies DInv of DecStream,   *)
(* and implies that every step which the algorithm takes next is one that     *)
(* DecStream allows (Can).                                                    *)
EXTENDS DecStream
Block == 65536
VARIABLES
    \* @type: Str;
    pc,
    \* @type: Int;
    held,
    \* @type: Int;
    todo
FConst == HeadLen = 96 /\ SigLen = 32
Inputs == /\ total \in Int /\ total >= 0
          /\ early \in {OK, EINVAL, 8} /\ keyok \in BOOLEAN /\ sigok \in BOOLEAN
          /\ (total < HeadLen => early # OK)
          /\ (sigok => total >= HeadLen + SigLen)
FInit == Inputs /\ Start /\ pc = "head" /\ held = 0 /\ todo = 0
Same == UNCHANGED <<held, todo>>
Put(n, ok) == n >= 0 /\ n <= todo /\ Write(n, TRUE, ok)
FNext ==
    \/ /\ pc = "head"
       /\ \/ \E n \in Int : n >= 1 /\ c + n <= HeadLen /\ Read(n) /\ pc' = IF c + n = HeadLen THEN "check" ELSE "head"
          \/ Eof /\ pc' = "check"
          \/ ReadFail /\ pc' = "fail"
       /\ Same
    \/ pc = "check" /\ early # OK /\ Return(early) /\ pc' = "close" /\ Same
    \/ pc = "check" /\ early = OK /\ Derive /\ pc' = "pass" /\ Same
    \/ pc = "pass" /\ keyok /\ UNCHANGED dvars /\ pc' = "read" /\ Same
    \/ pc = "pass" /\ ~keyok /\ Return(EPASS) /\ pc' = "close" /\ Same
    \/ /\ pc = "read"
       /\ \/ \E n \in Int :
               /\ n >= 1 /\ n <= Block + SigLen - held
               /\ Read(n)
               /\ held' = held + n
               /\ pc' = (IF held + n > SigLen THEN "write" ELSE "read")
               /\ todo' = (IF held + n > SigLen THEN held + n - SigLen ELSE todo)
          \/ Eof /\ pc' = "verify" /\ Same
          \/ ReadFail /\ pc' = "fail" /\ Same
    \/ /\ pc = "write"
       /\ \/ \E n \in Int : /\ n >= 1 /\ Put(n, TRUE)
                            /\ todo' = todo - n
                            /\ held' = (IF todo = n THEN SigLen ELSE held)
                            /\ pc' = (IF todo = n THEN "read" ELSE "write")
          \/ \E n \in Int : n < todo /\ Put(n, FALSE) /\ pc' = "fail" /\ Same
    \/ pc = "verify" /\ Return(IF held >= SigLen /\ sigok THEN OK ELSE EINVAL) /\ pc' = "close" /\ Same
    \/ pc = "fail" /\ Return(IF rerr THEN ERDFILE ELSE EWRFILE) /\ pc' = "close" /\ Same
    \/ pc = "close" /\ Close(~werr) /\ pc' = "end" /\ Same
    \/ pc = "end" /\ UNCHANGED dvars /\ UNCHANGED pc /\ Same

Body == pc \in {"read", "write", "verify"}
FShape ==
    /\ total \in Int /\ early \in {OK, EINVAL, 8} /\ keyok \in BOOLEAN /\ sigok \in BOOLEAN
    /\ c \in Int /\ e \in Int /\ held \in Int /\ todo \in Int /\ rc \in -1..15
    /\ eof \in BOOLEAN /\ rerr \in BOOLEAN /\ werr \in BOOLEAN /\ key \in BOOLEAN
    /\ phase \in {"run", "done", "closed"}
    /\ pc \in {"head", "check", "pass", "read", "write", "verify", "fail", "close", "end"}
FInd ==
    /\ total >= 0 /\ (total < HeadLen => early # OK) /\ (sigok => total >= HeadLen + SigLen)
    /\ 0 <= c /\ c <= total /\ 0 <= e /\ e <= Releasable
    /\ (eof => c = total)
    /\ (phase = "run" <=> pc \notin {"close", "end"}) /\ (phase = "closed" <=> pc = "end")
    /\ (pc \in {"head", "check"} => ~key /\ e = 0 /\ ~rerr /\ ~werr /\ c <= HeadLen /\ held = 0 /\ todo = 0)
    /\ (pc = "head" => c < HeadLen /\ ~eof)
    /\ (pc = "check" => (c = HeadLen /\ ~eof) \/ (eof /\ c = total /\ c < HeadLen))
    /\ (pc = "pass" => key /\ early = OK /\ c = HeadLen /\ e = 0 /\ ~rerr /\ ~werr /\ ~eof /\ held = 0)
    /\ (Body => key /\ keyok /\ early = OK /\ c >= HeadLen /\ ~rerr /\ ~werr /\ 0 <= held /\ held <= Block + SigLen)
    \* what is held back and what is to be written are all that has not been
    /\ (pc \in {"read", "verify"} => held <= SigLen /\ e + held = c - HeadLen /\ (e > 0 => held = SigLen))
    /\ (pc = "read" => ~eof)
    /\ (pc = "write" => ~eof /\ todo >= 1 /\ e + todo = c - HeadLen - SigLen)
    /\ (pc = "verify" => eof)
    /\ (pc = "fail" => rerr \/ werr)
    /\ (e > 0 => key /\ keyok) /\ (key => early = OK /\ c >= HeadLen)
    /\ ((rc = OK /\ phase # "run") => early = OK /\ keyok /\ sigok /\ eof /\ ~rerr /\ ~werr /\ e = total - HeadLen - SigLen)
    /\ ((rerr /\ phase # "run") => rc = ERDFILE \/ (werr /\ rc = EWRFILE))
    /\ ((werr /\ phase # "run") => rc # OK)
FIndInit == FShape /\ FInd
\* What the algorithm does next, DecStream allows.
Can ==
    /\ pc = "head" => phase = "run" /\ (c < total \/ c = total)
    /\ (pc = "check" /\ early # OK) => phase = "run" /\ ~key /\ ~rerr /\ ~werr
    /\ (pc = "check" /\ early = OK) => phase = "run" /\ c >= HeadLen /\ ~key
    /\ (pc = "pass" /\ ~keyok) => key /\ early = OK /\ ~rerr /\ ~werr
    /\ pc = "read" => held < Block + SigLen
    /\ pc = "write" => todo >= 1 /\ key /\ keyok /\ e + todo <= Releasable /\ phase = "run"
    /\ pc = "verify" => key /\ eof /\ early = OK /\ keyok /\ ~rerr /\ ~werr /\ (sigok => held >= SigLen)
    /\ pc = "fail" => rerr \/ werr
    /\ pc = "close" => /\ phase = "done" /\ ((rc = OK /\ ~werr) => e = total - HeadLen - SigLen)
                       /\ (werr => ~(rc = OK /\ ~werr))
FInv == FInd /\ DInv /\ Can
==============================================================================
