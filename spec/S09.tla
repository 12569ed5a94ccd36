--------------------------------- MODULE S09 ---------------------------------
(* Limits on given parameters, for decryption and encryption (S09), and the   *)
(* choice of parameters (S10).  Records:                                      *)
(*   op       "dec", "enc" (explicit parameters) or "pick"                    *)
(*   logN, r, p   parameters in the header or asked for                       *)
(*   force, mem, num, den   the budgets                                       *)
(*   rc, kdf, warn   result, key derivations (N, r, p), warnings              *)
(*   hdr, params     parameters in the output's header, and reported          *)
EXTENDS Cases, Limits, Results
Excesses(c) ==   \* what may be found to exceed its limit
    IF c.force = 1 THEN {<<FALSE, FALSE>>}
    ELSE LET big == ~MemFits(c.mem, c.logN, c.r)
             slow == ~OpsFits(c.num, c.den, c.logN, c.r, c.p)
         IN {<<big, slow>>} \cup (IF Near(c.num, c.den, c.logN, c.r, c.p) THEN {<<big, ~slow>>} ELSE {})
Is(k, logN, r, p) == k.N = BPow2(logN) /\ k.r = r /\ k.p = p
Derived(c, logN, r, p) == Len(c.kdf) = 1 /\ Is(c.kdf[1], logN, r, p)

DecOk(c) ==
    IF ~Valid(c.logN, c.r, c.p) THEN c.rc = EINVAL /\ c.kdf = <<>>
    ELSE \E x \in Excesses(c) :
        IF x[1] \/ x[2]
        THEN /\ c.kdf = <<>>
             /\ c.rc = (IF x[1] /\ x[2] THEN EBIGSLOW ELSE IF x[1] THEN ETOOBIG ELSE ETOOSLOW)
        ELSE c.rc \in {OK, EPASS} /\ Derived(c, c.logN, c.r, c.p)

Header(c, logN, r, p) ==
    /\ c.rc = OK
    /\ c.hdr = [logN |-> logN, r |-> r, p |-> p]
    /\ c.params = c.hdr
EncOk(c) ==
    IF ~Valid(c.logN, c.r, c.p) THEN c.rc = EPARAM /\ c.kdf = <<>> /\ c.warn = <<>>
    ELSE /\ \E x \in Excesses(c) : c.warn = (IF x[1] THEN <<"memory">> ELSE <<>>) \o (IF x[2] THEN <<"time">> ELSE <<>>)
         /\ Header(c, c.logN, c.r, c.p)
         /\ Derived(c, c.logN, c.r, c.p)

PickOk(c) ==
    LET q == Picked(c.mem, c.num, c.den)
    IN /\ c.warn = <<>>
       /\ Valid(q.logN, q.r, q.p)
       /\ Header(c, q.logN, q.r, q.p)
       /\ Derived(c, q.logN, q.r, q.p)
Ok(c) == CASE c.op = "dec" -> DecOk(c) [] c.op = "enc" -> EncOk(c) [] c.op = "pick" -> PickOk(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
