--------------------------------- MODULE S23 ---------------------------------
(* Operations performed one after another in one process (S23): each gives    *)
(* what its own arguments say, whatever was done before.  Records: fake (keys *)
(* are derived with small parameters) and the events:                         *)
(*   e       the operation; k: its handle                                     *)
(*   via     "buf" or "file"                                                  *)
(*   fail    what goes wrong: "", "limit", "clock", "entropy", "kdf",         *)
(*           "alloc", "read" or "write" (at position at)                      *)
(*   rc, out, err    the outcome; oom: allocations that failed                *)
(*   drawn   the salts with which an encryption derived keys, even if it      *)
(*           failed after that                                                *)
(*   live, fds       memory and descriptors held afterwards                   *)
EXTENDS Traces, Container, History, Display, Pass, Hex, FiniteSets
VARIABLES cookies,    \* what is to be read through the open handles
          h,          \* their states
          salts,      \* those used
          base        \* memory and descriptors in use when warm
vars == <<cookies, h, salts, base>>
Fake == Traces[t].fake
TInit == TrInit /\ cookies = <<>> /\ h = None /\ salts = {} /\ base = <<>>
KeyFor(pw, salt, logN, r, p) == IF Fake = 1 THEN FScrypt(pw, salt, 2, 1, 1, 64) ELSE FScrypt(pw, salt, 2 ^ logN, r, p, 64)
KeyOf(pw, b) == KeyFor(pw, SaltOf(b), HLogN(b), IF Fake = 1 THEN 1 ELSE SmallR(b), IF Fake = 1 THEN 1 ELSE SmallP(b))
Begins(a, b) == Len(a) <= Len(b) /\ a = SubSeq(b, 1, Len(a))
SmallNat(b) == IF b = <<>> THEN 0 ELSE IF Len(b) = 1 THEN b[1] ELSE b[1] + BB * b[2]

\* ---- encryption ----
Params(e) == IF e.pick = 1 THEN Picked(e.mem, e.num, e.den) ELSE [logN |-> e.q[1], r |-> BN(e.q[2]), p |-> BN(e.q[3])]
EncDone(e) ==
    LET b == Hex(e.out)
        q == Params(e)
        r == SmallNat(q.r)
        p == SmallNat(q.p)
    IN /\ Len(b) >= 48
       /\ b = SealKey(KeyFor(Hex(e.pw), SaltOf(b), q.logN, r, p), SaltOf(b), q.logN, r, p, Hex(e.data))
       /\ ToHex(SaltOf(b)) \in {e.drawn[i] : i \in 1..Len(e.drawn)}
\* A beginning of the container.
EncPart(e) ==
    LET b == Hex(e.out)
        q == Params(e)
        r == SmallNat(q.r)
        p == SmallNat(q.p)
    IN Len(b) < 48 \/ Begins(b, SealKey(KeyFor(Hex(e.pw), SaltOf(b), q.logN, r, p), SaltOf(b), q.logN, r, p, Hex(e.data)))
EncOk(e) ==
    LET done == e.rc = OK /\ EncDone(e)
        size == Len(e.data) \div 2 + 128
    IN CASE e.fail = "" -> done
         [] e.fail = "limit" /\ e.force = 0 -> e.rc = ELIMIT /\ e.out = ""
         [] e.fail = "clock" /\ e.force = 0 -> e.rc = ECLOCK /\ e.out = ""
         [] e.fail \in {"limit", "clock"} -> done
         [] e.fail = "entropy" -> done \/ (e.rc = ESALT /\ e.out = "")     \* (if more is needed)
         [] e.fail = "kdf" -> e.rc = EKEY /\ e.out = ""
         [] e.fail = "alloc" -> done \/ (e.rc \in Errors /\ e.oom > 0 /\ EncPart(e))
         [] e.fail = "read" -> e.rc = ERDFILE /\ EncPart(e)
         [] e.fail = "write" -> IF e.at >= size THEN done ELSE (e.rc = EWRFILE \/ e.closed = 0) /\ Len(e.out) \div 2 <= e.at /\ EncPart(e)

\* ---- decryption ----
Limit(e) == IF e.force = 1 THEN [force |-> 1] ELSE [force |-> 0, mem |-> e.mem, num |-> e.num, den |-> e.den]
\* up to the passphrase
Opening(pw, b, lim, fail) ==
    LET e0 == EarlyVerdict(b, [force |-> 1])
        e1 == EarlyVerdict(b, lim)
    IN IF e0 # OK THEN e0
       ELSE IF lim.force = 0 /\ fail = "limit" THEN ELIMIT
       ELSE IF lim.force = 0 /\ fail = "clock" THEN ECLOCK
       ELSE IF e1 # OK THEN e1
       ELSE IF fail = "kdf" THEN EKEY
       ELSE IF ~HeadSigned(KeyOf(pw, b), b) THEN EPASS ELSE OK
\* and the rest
Closing(pw, b) == IF AllSigned(KeyOf(pw, b), b) THEN OK ELSE EINVAL
Text(pw, b) == IF Len(b) < 128 THEN <<>> ELSE PlainOf(KeyOf(pw, b), b)
\* (of an altered body, all that is before the last 32 bytes may be given)
OpenOk(e) ==
    LET v == Opening(Hex(e.pw), Hex(e.box), Limit(e), e.fail)
    IN CASE e.fail \in {"", "limit", "clock", "kdf"} -> e.rc = v
         [] e.fail = "alloc" -> e.rc = v \/ (e.rc \in Errors /\ e.oom > 0)
         [] e.fail = "read" -> IF e.at < 96 THEN e.rc \in Errors /\ e.rc \in {ERDFILE, Opening(Hex(e.pw), Take(Hex(e.box), e.at), Limit(e), "")} ELSE e.rc \in {v, ERDFILE}
RestOk(pw, b, fail, at, rderr, e, inbuf) ==
    LET v == Closing(pw, b)
        x == Text(pw, b)
        o == Hex(e.out)
        done == e.rc = v /\ (IF v = OK THEN o = x ELSE Begins(o, x) /\ (inbuf => o = <<>>))
    IN IF rderr >= 0 \* (the first thing that goes wrong decides)
       THEN /\ Begins(o, x)
            /\ \/ e.rc = ERDFILE
               \/ fail = "alloc" /\ e.oom > 0 /\ e.rc \in Errors
               \/ fail = "write" /\ e.rc = EWRFILE /\ Len(o) <= at
       ELSE CASE fail = "write" -> IF at >= Len(x) THEN done ELSE (e.rc = EWRFILE \/ e.closed = 0 \/ (e.rc = v /\ v # OK)) /\ Len(o) <= at /\ Begins(o, x)
              [] fail = "alloc" -> done \/ (e.rc \in Errors /\ e.oom > 0 /\ Begins(o, x))
              [] OTHER -> done
DecOk(e) ==
    LET pw == Hex(e.pw)
        b == Hex(e.box)
        f == IF e.fail = "write" THEN "" ELSE e.fail
        v == Opening(pw, b, Limit(e), f)
        rd == IF e.fail = "read" THEN e.at ELSE -1
    IN IF e.via = "buf" /\ Len(b) < 128 /\ e.rc = EINVAL /\ v # EVERSION THEN e.out = ""     \* (too short to be one)
       ELSE IF (v = OK /\ (rd < 0 \/ rd >= 96)) \/ (e.rc = OK)
       THEN v = OK /\ (RestOk(pw, b, e.fail, e.at, rd, e, e.via = "buf") \/ (e.fail = "alloc" /\ e.oom > 0 /\ e.rc \in Errors /\ e.out = ""))
       ELSE OpenOk([e EXCEPT !.fail = f]) /\ e.out = ""

\* ---- the rest ----
InfoOk(e) ==
    LET b == Hex(e.box)
        v == InfoVerdict(b)
    IN e.rc = v /\ (IF v = OK THEN Plainly(e.err, HLogN(b), HR(b), HP(b)) ELSE e.err = "")
KdfOk(e) == e.rc = 0 /\ Hex(e.out) = FScrypt(Hex(e.pw), Hex(e.salt), 2 ^ e.q[1], e.q[2], e.q[3], e.n)
Source(e) == Hex(e.src)
PassOk(e) ==
    LET w == CASE e.m = "env" -> AllOf(Source(e)) [] e.m = "file" -> FromFile(Source(e))
               [] e.m = "stdin-once" -> Entered(Source(e), 1, FALSE, 0) [] e.m = "tty-stdin" -> Entered(Source(e), 1, e.twice = 1, 0)
    IN IF e.oom = 0 THEN (e.rc = 0) = w.ok /\ (w.ok => e.out = ToHex(w.text)) ELSE e.rc = 0 => e.out = ToHex(w.text)

\* ---- what is held ----
Held(e, hs) == base # <<>> => e.live <= base[1] + 4 * Cardinality(DOMAIN hs) /\ e.fds <= base[2]
Same == UNCHANGED <<cookies, h, salts, base>>
TNext ==
    \/ IsEvent("warm") /\ base' = <<Ev.live, Ev.fds>> /\ UNCHANGED <<cookies, h, salts>>
    \/ /\ IsEvent("enc") /\ (EncOk(Ev) = TRUE) /\ (Held(Ev, h) = TRUE) /\ UNCHANGED <<cookies, h, base>>
       /\ \A i \in 1..Len(Ev.drawn) : Ev.drawn[i] \notin salts
       /\ salts' = salts \cup {Ev.drawn[i] : i \in 1..Len(Ev.drawn)}
    \/ IsEvent("dec") /\ (DecOk(Ev) = TRUE) /\ (Held(Ev, h) = TRUE) /\ Same
    \/ IsEvent("info") /\ (InfoOk(Ev) = TRUE) /\ (Held(Ev, h) = TRUE) /\ Same
    \/ IsEvent("kdf") /\ (KdfOk(Ev) = TRUE) /\ (Held(Ev, h) = TRUE) /\ Same
    \/ IsEvent("pass") /\ (PassOk(Ev) = TRUE)
       /\ (Held([Ev EXCEPT !.live = IF Ev.rc = 0 THEN @ - 1 ELSE @], h) = TRUE)      \* (the passphrase is handed over)
       /\ Same
    \/ /\ IsEvent("prep") /\ (OpenOk(Ev) = TRUE) /\ UNCHANGED <<salts, base>>
       /\ IF Ev.rc = OK
          THEN /\ cookies' = (Ev.k :> [pw |-> Ev.pw, box |-> Ev.box, rd |-> IF Ev.fail = "read" THEN Ev.at ELSE -1]) @@ cookies
               /\ h' = With(h, Ev.k, "ready")
          ELSE UNCHANGED <<cookies, h>>
       /\ (Held(Ev, h') = TRUE)
    \/ /\ IsEvent("copy") /\ Ev.k \in Ready(h)
       /\ LET c == cookies[Ev.k] IN RestOk(Hex(c.pw), Hex(c.box), Ev.fail, Ev.at, c.rd, Ev, FALSE) = TRUE
       /\ h' = With(h, Ev.k, "done") /\ (Held(Ev, h) = TRUE) /\ UNCHANGED <<cookies, salts, base>>
    \/ IsEvent("free") /\ Ev.k \in DOMAIN h /\ h' = Without(h, Ev.k) /\ (Held(Ev, h') = TRUE) /\ UNCHANGED <<cookies, salts, base>>
    \/ Finished /\ UNCHANGED <<cookies, h, salts, base, tvars>>
==============================================================================
