--------------------------------- MODULE S14 ---------------------------------
(* Passphrases from every source by every method (S14).                      *)
(*   m      method; confirm: whether to ask twice if it is one that does     *)
(*   tty    what is typed at the terminal, stdin, file, var: the others; "-" *)
(*          if there is none, "!" if reading it fails (where: at some point  *)
(*          before its end)                                                  *)
(*   ok, pw, err    the outcome                                              *)
(*   sttty  standard input is that terminal                                  *)
EXTENDS Cases, Pass, Hex, Text
Src(x) == IF x \in {"-", "!"} THEN <<>> ELSE Hex(x)
Good(x) == x \notin {"-", "!"}
UsesTty(c) == (c.m \in {"tty-stdin", "tty-once"} /\ c.tty # "-") \/ (c.m \in {"tty-stdin", "stdin-once"} /\ c.sttty = 1)
From(c) == IF UsesTty(c) THEN c.tty ELSE c.stdin
Twice(c) == c.m = "tty-stdin" /\ c.confirm = 1
Expected(c) ==
    CASE c.m \in {"tty-stdin", "stdin-once"} -> IF Good(From(c)) THEN Entered(Src(From(c)), 1, Twice(c), 0) ELSE NoPass
      [] c.m = "tty-once" -> IF Good(c.tty) THEN Entered(Src(c.tty), 1, FALSE, 0) ELSE NoPass
      [] c.m = "env" -> IF Good(c.var) THEN AllOf(Src(c.var)) ELSE NoPass
      [] c.m = "file" -> IF Good(c.file) THEN FromFile(Src(c.file)) ELSE NoPass
\* On a terminal each entry is prompted for; elsewhere nothing is.
Prompted(c, n) ==
    LET RECURSIVE P(_, _)
        P(k, acc) == IF k > n THEN acc
                     ELSE P(k + 1, acc \o (IF k > 1 /\ Twice(c) /\ k % 2 = 1 THEN "Passwords mismatch, please try again\n" ELSE "")
                                       \o (IF ~UsesTty(c) THEN "" ELSE IF Twice(c) /\ k % 2 = 0 THEN c.p2 \o ": " ELSE c.p1 \o ": "))
    IN P(1, "")
Entry(c) == c.m \in {"tty-stdin", "stdin-once", "tty-once"}
Ok(c) ==
    LET e == Expected(c)
    IN /\ (c.ok = 1) = e.ok
       /\ e.ok => c.pw = ToHex(e.text)
       /\ c.chkerr = 1 => IF e.ok THEN c.err = (IF Entry(c) THEN Prompted(c, e.asked) ELSE "")
                          ELSE IF Entry(c) THEN StartsWith(c.err, Prompted(c, e.asked)) /\ Len(c.err) > Len(Prompted(c, e.asked))
                          ELSE c.err # ""
       \* what follows on standard input is left there for the data
       /\ (c.rest # "?" /\ e.ok) => Hex(c.rest) = SubSeq(Src(c.stdin), e.next, Len(Src(c.stdin)))
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
