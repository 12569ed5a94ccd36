--------------------------------- MODULE S18 ---------------------------------
(* Displayed parameters and needs (S18).                                     *)
EXTENDS Cases, Display, Container, Hex, Messages
\* kind "size": n, and its text s
Size(c) == c.s = Human(c.n) /\ (c.slow = 1 => IsLargest(c.s, c.n))

\* kind "info": the command and its input: b is what can be read of it, and
\* src how that ends: "eof", "err" (with a reason), or "none" (no such file)
ErrLine(rc, name, why) == "scrypt: " \o Message(rc, name, "") \o (IF why = "" THEN "" ELSE ": " \o why) \o "\n"
Info(c) ==
    LET b == Hex(c.b)
        v == InfoVerdict(b)
    IN /\ c.out = "" /\ c.same = 1 /\ c.nkdf = 0
       /\ IF c.src = "none" THEN c.rc = 1 /\ c.err = "scrypt: Cannot open input file: " \o c.name \o ": " \o c.why \o "\n"
          ELSE IF c.src = "err" /\ Len(b) < 96 /\ ~(Len(b) >= 7 /\ v \in {EVERSION, EINVAL} /\ (~GoodMagic(b) \/ b[7] # 0))
               THEN c.rc = 1 /\ c.err = ErrLine(ERDFILE, c.name, c.why)
          ELSE IF v # OK THEN c.rc = 1 /\ c.err = ErrLine(v, c.name, "")
          ELSE c.rc = 0 /\ Plainly(c.err, HLogN(b), HR(b), HP(b))
\* the same of the library: rc is its result
InfoLib(c) ==
    LET v == InfoVerdict(Hex(c.b)) IN c.rc = v /\ (IF v = OK THEN Plainly(c.err, HLogN(Hex(c.b)), HR(Hex(c.b)), HP(Hex(c.b))) ELSE c.err = "")

\* kind "run": verbose encryption or decryption with parameters logN r p, a
\* scripted machine: force, mem, sn/sd operations per second, tn/td seconds
WarnText(c) ==
    (IF c.op = "enc" /\ c.expl = 1 /\ c.force = 0 /\ ~MemFits(c.mem, c.logN, c.r) THEN "scrypt: Warning: Explicit parameters might exceed memory limit\n" ELSE "")
    \o (IF c.op = "enc" /\ c.expl = 1 /\ c.force = 0 /\ c.slow = 1 THEN "scrypt: Warning: Explicit parameters might exceed time limit\n" ELSE "")
Fits(c) == OpsFits(BMul(c.sn, c.tn), BMul(c.sd, c.td), c.logN, c.r, c.p)
Close(c) == Near(BMul(c.sn, c.tn), BMul(c.sd, c.td), c.logN, c.r, c.p)
\* What follows the display: warnings, and for a failure its message.
Rest(c, slow) ==
    LET w == WarnText([c EXCEPT !.slow = slow])
        big == ~MemFits(c.mem, c.logN, c.r)
        e == IF c.op = "enc" THEN OK
             ELSE IF c.force = 0 /\ big /\ slow = 1 THEN EBIGSLOW
             ELSE IF c.force = 0 /\ big THEN ETOOBIG
             ELSE IF c.force = 0 /\ slow = 1 THEN ETOOSLOW
             ELSE IF c.goodpw = 1 THEN OK ELSE EPASS
    IN [text |-> w \o (IF e = OK \/ c.cli = 0 THEN "" ELSE ErrLine(e, "", "")), rc |-> IF c.cli = 1 THEN (IF e = OK THEN 0 ELSE 1) ELSE e]
Shown(c, slow) ==
    LET k == Rest(c, slow)
        n == Len(c.err) - Len(k.text)
        s == SubSeq(c.err, 1, n)
    IN /\ n >= 0 /\ (c.cli = 1 => EndsWith(c.err, k.text)) /\ c.rc = k.rc
       /\ IF c.verbose = 0 THEN s = ""
          ELSE IF c.force = 1 /\ (c.op = "dec" \/ c.expl = 1) THEN Plainly(s, c.logN, c.r, c.p)
          ELSE Fully(s, c.logN, c.r, c.p, c.mem, c.sn, c.sd, c.tn, c.td)
Verbose(c) ==
    IF c.force = 1 THEN Shown(c, 0)
    ELSE LET f == IF Fits(c) THEN 0 ELSE 1
         IN Shown(c, f) \/ (Close(c) /\ Shown(c, 1 - f))
\* encryption that picks its parameters shows those of the header
Chosen(c) == c.op = "enc" => c.hlogN = c.logN /\ c.hr = c.r /\ c.hp = c.p
Bad(c) ==   \* decryption of invalid input displays no parameters
    c.rc = 1 /\ c.err = ErrLine(EarlyVerdict(Hex(c.b), [force |-> 1]), "", "")
Ok(c) == CASE c.k = "size" -> Size(c) [] c.k = "info" -> Info(c) [] c.k = "infolib" -> InfoLib(c)
           [] c.k = "run" -> Verbose(c) /\ Chosen(c) [] c.k = "bad" -> Bad(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
