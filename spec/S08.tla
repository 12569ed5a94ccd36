--------------------------------- MODULE S08 ---------------------------------
(* S08: the command with one input or output operation failing.              *)
(* fault: "rd" reading from byte `at` on, "wr" writing from byte `at` on,     *)
(* "close" (closing or flushing the output), "none".  out: what the output    *)
(* has received.                                                              *)
EXTENDS Container, Cases, Hex, Text
EncDone(c) == LET o == Hex(c.out) IN
    /\ Len(o) = Len(Hex(c.in)) + 128
    /\ o = Seal(Hex(c.pw), SaltOf(o), HLogN(o), SmallR(o), SmallP(o), Hex(c.in))
\* A container that decrypts with the passphrase.
Complete(c) == LET o == Hex(c.out) IN Len(o) >= 128 /\ Verdict(Hex(c.pw), o, [force |-> 1]) = OK
Want(c) == IF c.op = "enc" THEN Len(Hex(c.in)) + 128 ELSE Len(Hex(c.in)) - 128
\* Does the fault show?
Hit(c) == CASE c.fault = "rd" -> TRUE
            [] c.fault = "wr" -> c.at < Want(c)
            [] c.fault = "close" -> TRUE
            [] OTHER -> FALSE
Ok(c) ==
    /\ IF Hit(c)
       THEN /\ c.rc = 1
            /\ IF c.fault = "rd" THEN HasText(c.err, "Error reading file") /\ ~HasText(c.err, "not valid")
               ELSE HasText(c.err, "Error writing file")
       ELSE c.rc = 0 /\ ~HasText(c.err, "Error")
    /\ IF c.op = "dec"
       THEN LET p == Plain(Hex(c.pw), Hex(c.in))
            IN IF c.rc = 0 THEN Hex(c.out) = p ELSE IsPrefixOf(Hex(c.out), p)
       ELSE /\ c.rc = 0 => EncDone(c)
            /\ (c.rc # 0 /\ c.fault # "close") => ~Complete(c)
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
