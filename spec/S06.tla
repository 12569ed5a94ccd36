--------------------------------- MODULE S06 ---------------------------------
(* S06: verdicts, and what must not have happened before them (buffers and   *)
(* the command; DecTrace has the streams).                                   *)
EXTENDS Container, Cases, Hex, Messages
V(c) == Verdict(Hex(c.pw), Hex(c.box), c.lim)
Early(c) == EarlyVerdict(Hex(c.box), c.lim)
\* A buffer that cannot hold a container may be refused at once.
Short(c) == LET b == Hex(c.box) IN Len(b) < 128 /\ GoodMagic(b) /\ b[7] = 0
Buf(c) ==
    /\ c.rc = V(c) \/ (Short(c) /\ c.rc = EINVAL)
    /\ Early(c) # OK => c.nkdf = 0
    /\ c.nkdf <= 1
    /\ (Early(c) # OK \/ c.rc = EPASS) => c.untouched = 1
    /\ c.guards = 1
Command(c) ==
    LET v == V(c)
        b == Hex(c.box)
        \* the output as it was
        same == c.stdout = "" /\ c.after = c.before
    IN /\ c.rc = IF v = OK THEN 0 ELSE 1
       /\ v = OK => c.err = ""
       /\ v # OK => c.err = "scrypt: " \o Message(v, c.inname, c.outname) \o "\n"
       /\ (Early(c) # OK \/ v = EPASS) => same
       /\ Early(c) # OK => c.nkdf = 0
       /\ ~(Early(c) # OK \/ v = EPASS) =>
            LET o == IF c.outname = "" THEN c.stdout ELSE c.after
                p == Plain(Hex(c.pw), b)
            IN IF v = OK THEN o = ToHex(p) ELSE IsPrefixOf(Hex(o), p)
Ok(c) == IF c.via = "buf" THEN Buf(c) ELSE Command(c)
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
