---------------------------- MODULE ReadPassDesign ----------------------------
(* The algorithm of passphrase entry, step by step, with signals arriving    *)
(* at any time, refines ReadPass (checked by TLC).                           *)
EXTENDS ReadPass, Sequences, TLC
CONSTANTS Sigs,      \* the handled signals: 1..n
          MaxSigs,   \* how many arrive
          MaxTries   \* mismatches
VARIABLES pc, k,     \* where; index within a loop
          tty, confirm, tries,
          echo0, echo,        \* the terminal's echo at the start and now
          own,      \* signals with their own disposition in force
          got,      \* flags set by the handler
          arrived
vars == <<pc, k, tty, confirm, tries, echo0, echo, own, got, arrived, pend, now, done>>

Ign == {}
alg == <<tty, confirm, echo0>>
Init == /\ tty \in BOOLEAN /\ confirm \in BOOLEAN /\ echo0 \in BOOLEAN /\ echo = echo0
        /\ pc = "install" /\ k = 1 /\ tries = 0 /\ own = Sigs /\ got = {} /\ arrived = 0
        /\ RInit
\* A signal; with its own disposition in force it takes effect at once.
Signal(s) == /\ ~done /\ arrived < MaxSigs /\ now = {}
             /\ Receive(s, s \in own)
             /\ got' = IF s \in own THEN got ELSE got \cup {s}
             /\ arrived' = arrived + 1
             /\ UNCHANGED <<pc, k, alg, tries, echo, own>>
Effect(s) == /\ s \in now /\ TakesEffect(s, echo = echo0, own = Sigs)
             /\ UNCHANGED <<pc, k, alg, tries, echo, own, got, arrived>>
Quiet == now = {}
Go(p) == pc' = p
Keep == UNCHANGED <<alg, arrived, got>>
Install == /\ pc = "install" /\ Quiet
           /\ IF k <= Cardinality(Sigs) THEN own' = own \ {k} /\ k' = k + 1 /\ Go("install")
              ELSE k' = 1 /\ Go(IF tty THEN "noecho" ELSE "read") /\ UNCHANGED own
           /\ Keep /\ UNCHANGED <<tries, echo, rvars>>
\* tcgetattr or tcsetattr may fail.
NoEcho == /\ pc = "noecho" /\ Quiet
          /\ \/ echo' = FALSE /\ Go("read")
             \/ Go("restore") /\ UNCHANGED echo
          /\ Keep /\ UNCHANGED <<k, tries, own, rvars>>
Read == /\ pc \in {"read", "again"} /\ Quiet
        /\ ReadFrom(tty, echo)
        /\ \/ Go("unecho") /\ UNCHANGED tries                             \* failure, end of file; or done
           \/ pc = "read" /\ confirm /\ Go("again") /\ UNCHANGED tries
           \/ pc = "again" /\ tries < MaxTries /\ tries' = tries + 1 /\ Go("read")
        /\ Keep /\ UNCHANGED <<k, echo, own>>
Unecho == /\ pc = "unecho" /\ Quiet
          /\ echo' = IF tty THEN echo0 ELSE echo
          /\ Go("restore") /\ Keep /\ UNCHANGED <<k, tries, own, rvars>>
Restore == /\ pc = "restore" /\ Quiet
           /\ IF k <= Cardinality(Sigs) THEN own' = own \cup {k} /\ k' = k + 1 /\ Go("restore")
              ELSE k' = 1 /\ Go("raise") /\ UNCHANGED own
           /\ Keep /\ UNCHANGED <<tries, echo, rvars>>
Raise == /\ pc = "raise" /\ Quiet
         /\ IF k <= Cardinality(Sigs)
            THEN /\ k' = k + 1 /\ Go("raise") /\ UNCHANGED done
                 /\ IF k \in got THEN TakesEffect(k, echo = echo0, own = Sigs) ELSE UNCHANGED <<pend, now>>
            ELSE k' = 1 /\ Go("end") /\ Returns(echo = echo0, own = Sigs, Ign)
         /\ Keep /\ UNCHANGED <<tries, echo, own>>
Next == (\E s \in Sigs : Signal(s) \/ Effect(s)) \/ Install \/ NoEcho \/ Read \/ Unecho \/ Restore \/ Raise
\* Every step that is due is possible in ReadPass: no state but the last is
\* without successors.
Progress == pc = "end" \/ ENABLED Install \/ ENABLED NoEcho \/ ENABLED Read \/ ENABLED Unecho \/ ENABLED Restore \/ ENABLED Raise \/ (\E s \in Sigs : ENABLED Effect(s))
Safe == /\ pc = "end" => (echo = echo0 /\ own = Sigs /\ pend = {} /\ now = {})
        /\ now # {} => echo = echo0
Spec == Init /\ [][Next]_vars
===============================================================================
