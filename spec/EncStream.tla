------------------------------ MODULE EncStream ------------------------------
(* Streaming encryption as its surroundings see it (S03, S08).               *)
EXTENDS Results
CONSTANTS
    \* @type: Int;
    HeadLen,     \* 96
    \* @type: Int;
    SigLen       \* 32

VARIABLES
    \* @type: Int;
    total,   \* length of the input
    \* @type: Int;
    c,       \* bytes read
    \* @type: Bool;
    eof,     \* the end of the input has been seen
    \* @type: Bool;
    rerr,    \* a read has failed
    \* @type: Bool;
    werr,    \* a write has failed
    \* @type: Bool;
    key,     \* the key has been derived (so parameters and salt are fixed)
    \* @type: Int;
    e,       \* bytes written
    \* @type: Str;
    phase,   \* "run", "done" (result known), "closed" (output closed)
    \* @type: Int;
    rc
evars == <<total, c, eof, rerr, werr, key, e, phase, rc>>

EStart == /\ c = 0 /\ eof = FALSE /\ rerr = FALSE /\ werr = FALSE /\ key = FALSE
          /\ e = 0 /\ phase = "run" /\ rc = -1
\* What may have been written: the header, what has been read, and the
\* signature only after the end of the input, properly reached.
Producible == HeadLen + c + (IF eof /\ ~rerr THEN SigLen ELSE 0)

ERead(n) == /\ phase = "run" /\ n > 0 /\ c + n <= total
            /\ c' = c + n
            /\ UNCHANGED <<total, eof, rerr, werr, key, e, phase, rc>>
EEof == /\ phase = "run" /\ c = total
        /\ eof' = TRUE
        /\ UNCHANGED <<total, c, rerr, werr, key, e, phase, rc>>
EReadFail == /\ phase = "run"
             /\ rerr' = TRUE
             /\ UNCHANGED <<total, c, eof, werr, key, e, phase, rc>>
EDerive == /\ phase = "run" /\ ~key
           /\ key' = TRUE
           /\ UNCHANGED <<total, c, eof, rerr, werr, e, phase, rc>>
\* n bytes are accepted by the output; right: they are the next n bytes of
\* the container.
EWrite(n, right, ok) ==
    /\ phase \in {"run", "done"}
    /\ n > 0 => (key /\ right)
    /\ e + n <= Producible
    /\ e' = e + n
    /\ werr' = (werr \/ ~ok)
    /\ UNCHANGED <<total, c, eof, rerr, key, phase, rc>>
EReturn(x) ==
    /\ phase = "run"
    /\ IF rerr \/ werr THEN x \in (IF rerr THEN {ERDFILE} ELSE {}) \cup (IF werr THEN {EWRFILE} ELSE {})
       ELSE key /\ eof /\ x = OK
    /\ rc' = x /\ phase' = "done"
    /\ UNCHANGED <<total, c, eof, rerr, werr, key, e>>
EClose(ok) ==
    /\ phase = "done"
    /\ ok \/ werr
    /\ (rc = OK /\ ok /\ ~werr) => e = total + HeadLen + SigLen
    /\ werr => ~(rc = OK /\ ok)
    /\ phase' = "closed"
    /\ UNCHANGED <<total, c, eof, rerr, werr, key, e, rc>>

ENext == \/ \E n \in 1..(total + HeadLen + SigLen) : ERead(n) \/ EWrite(n, TRUE, TRUE) \/ EWrite(n, TRUE, FALSE)
         \/ EEof \/ EReadFail \/ EDerive \/ EWrite(0, TRUE, FALSE)
         \/ \E x \in {OK, ERDFILE, EWRFILE} : EReturn(x)
         \/ \E ok \in BOOLEAN : EClose(ok)

\* S08 as invariants of the machine: success only if nothing failed; a
\* complete container only if no write failed before it was complete and the
\* input was read to its end.
NoFalseSuccess == (phase # "run" /\ rc = OK) => (eof /\ ~rerr /\ c = total)
Complete == e >= HeadLen + c + SigLen => (c = total /\ eof /\ ~rerr)
EInv == NoFalseSuccess /\ Complete
==============================================================================
