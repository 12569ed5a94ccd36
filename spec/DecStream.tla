------------------------------ MODULE DecStream ------------------------------
(* Streaming decryption as its surroundings see it (S05 to S08): reading,    *)
(* deriving the key, writing, returning.  What the input says is summarised  *)
(* by its length and four facts.                                             *)
EXTENDS Results
CONSTANTS
    \* @type: Int;
    HeadLen,     \* 96
    \* @type: Int;
    SigLen       \* 32

VARIABLES
    \* @type: Int;
    total,   \* length of the input
    \* @type: Int;
    early,   \* verdict on the header before the key is derived (OK: none)
    \* @type: Bool;
    keyok,   \* the header signature is right under the passphrase
    \* @type: Bool;
    sigok,   \* there is a body, and its signature is right
    \* @type: Int;
    c,       \* bytes read
    \* @type: Bool;
    eof,     \* the end of the input has been seen
    \* @type: Bool;
    rerr,    \* a read has failed
    \* @type: Bool;
    werr,    \* a write has failed
    \* @type: Bool;
    key,     \* the key has been derived
    \* @type: Int;
    e,       \* bytes written
    \* @type: Str;
    phase,   \* "run", "done" (result known), "closed" (output closed)
    \* @type: Int;
    rc
dvars == <<total, early, keyok, sigok, c, eof, rerr, werr, key, e, phase, rc>>
input == <<total, early, keyok, sigok>>

Start == /\ c = 0 /\ eof = FALSE /\ rerr = FALSE /\ werr = FALSE /\ key = FALSE
         /\ e = 0 /\ phase = "run" /\ rc = -1
Max0(x) == IF x > 0 THEN x ELSE 0
\* What may have been written by now: all that has been read, without header
\* and the last SigLen bytes.
Releasable == Max0(c - HeadLen - SigLen)

Read(n) == /\ phase = "run" /\ n > 0 /\ c + n <= total
           /\ c' = c + n
           /\ UNCHANGED <<input, eof, rerr, werr, key, e, phase, rc>>
Eof == /\ phase = "run" /\ c = total
       /\ eof' = TRUE
       /\ UNCHANGED <<input, c, rerr, werr, key, e, phase, rc>>
ReadFail == /\ phase = "run"
            /\ rerr' = TRUE
            /\ UNCHANGED <<input, c, eof, werr, key, e, phase, rc>>
\* The expensive step: only for input that has passed the tests before it.
Derive == /\ phase = "run" /\ c >= HeadLen /\ early = OK /\ ~key
          /\ key' = TRUE
          /\ UNCHANGED <<input, c, eof, rerr, werr, e, phase, rc>>
\* n bytes are accepted by the output; right: they are the next n bytes of
\* the decryption.  (Buffered output may be flushed after the result.)
Write(n, right, ok) ==
    /\ phase \in {"run", "done"}
    /\ n > 0 => (key /\ keyok /\ right)
    /\ e + n <= Releasable
    /\ e' = e + n
    /\ werr' = (werr \/ ~ok)
    /\ UNCHANGED <<input, c, eof, rerr, key, phase, rc>>
\* The passphrase test of the two-step interface.
Prep(x) == /\ phase = "run" /\ e = 0
           /\ IF rerr THEN x = ERDFILE
              ELSE IF early # OK THEN x = early
              ELSE key /\ x = (IF keyok THEN OK ELSE EPASS)
           /\ phase' = IF x = OK THEN "run" ELSE "closed"
           /\ rc' = x
           /\ UNCHANGED <<input, c, eof, rerr, werr, key, e>>
Return(x) ==
    /\ phase = "run"
    /\ CASE rerr \/ werr -> x \in (IF rerr THEN {ERDFILE} ELSE {}) \cup (IF werr THEN {EWRFILE} ELSE {})
         [] early # OK -> x = early /\ ~key
         [] ~keyok -> x = EPASS /\ key
         [] OTHER -> key /\ eof /\ x = (IF sigok THEN OK ELSE EINVAL)
    /\ rc' = x /\ phase' = "done"
    /\ UNCHANGED <<input, c, eof, rerr, werr, key, e>>
Close(ok) ==
    /\ phase = "done"
    /\ ok \/ werr
    \* success of both means that everything has been written
    /\ (rc = OK /\ ok /\ ~werr) => e = total - HeadLen - SigLen
    /\ werr => ~(rc = OK /\ ok)
    /\ phase' = "closed"
    /\ UNCHANGED <<input, c, eof, rerr, werr, key, e, rc>>

\* A whole command: its exit status.
Exit(code) ==
    /\ phase = "run"
    /\ code = IF early = OK /\ keyok /\ sigok /\ eof /\ ~rerr /\ ~werr /\ e = total - HeadLen - SigLen THEN 0 ELSE 1
    /\ phase' = "closed" /\ rc' = IF code = 0 THEN OK ELSE EINVAL
    /\ UNCHANGED <<input, c, eof, rerr, werr, key, e>>

DNext == \/ \E n \in 1..total : Read(n) \/ Write(n, TRUE, TRUE) \/ Write(n, TRUE, FALSE)
        \/ Eof \/ ReadFail \/ Derive
        \/ Write(0, TRUE, FALSE)
        \/ \E x \in {OK, EINVAL, EPASS, EWRFILE, ERDFILE, 8} : Return(x) \/ Prep(x)
        \/ \E ok \in BOOLEAN : Close(ok)

\* S07, S06, S05, S08 as invariants of the machine.
OnlyPrefix == e <= Releasable
Quiet == e > 0 => (key /\ keyok /\ early = OK)
Cheap == key => (early = OK /\ c >= HeadLen)
Genuine == (phase \in {"done", "closed"} /\ rc = OK) => (early = OK /\ keyok /\ sigok /\ eof /\ c = total)
Reported == (phase \in {"done", "closed"} /\ rerr) => (rc = ERDFILE \/ (werr /\ rc = EWRFILE))
DInv == OnlyPrefix /\ Quiet /\ Cheap /\ (phase = "done" => Genuine) /\ Reported
==============================================================================
