--------------------------------- MODULE S24 ---------------------------------
(* What comes of a command when things go wrong (S24).                        *)
(*   dirs        names of directories                                         *)
(*   rdin, rdat  reading the file of this name fails at this position         *)
(*   wrto, wrat, wrclose   so does writing, or closing, this one              *)
(*   sin, sout   standard input and output: "ok", or cannot be read ("dir"),  *)
(*               or written ("full", "closed")                                *)
(*   oom         memory allocations that failed                               *)
(*   secrets     what must not be seen                                        *)
EXTENDS Cases, Cli, Hex
Words2(x) == [k \in 1..Len(x) |-> Hex(x[k])]
Pairs(fs) == [k \in 1..Len(fs) |-> [name |-> Hex(fs[k].name), b |-> Hex(fs[k].b)]]
World(c) == [stdin |-> IF c.sin = "ok" THEN Hex(c.stdin) ELSE <<>>, files |-> Pairs(c.files), vars |-> Pairs(c.vars), total |-> c.total, sn |-> c.sn, sd |-> c.sd,
             fake |-> c.fake, fail |-> {c.fail[k] : k \in 1..Len(c.fail)}, dirs |-> {Hex(c.dirs[k]) : k \in 1..Len(c.dirs)}, version |-> Hex(c.version)]
\* Reading the input fails at some position, or not (-1).
ReadAt(c, w, x) == IF x.in = Hyphen THEN (IF c.sin = "ok" THEN -1 ELSE 0)
                   ELSE IF x.in \in w.dirs THEN 0 ELSE IF x.in = Hex(c.rdin) THEN c.rdat ELSE -1
\* The first bytes b of the input are there, then reading fails.
CutAt(h, b) ==
    IF Len(b) < 96 THEN (IF Len(b) >= 7 /\ ~GoodMagic(b) THEN Outcome(EINVAL) ELSE IF Len(b) >= 7 /\ b[7] # 0 THEN Outcome(EVERSION) ELSE Outcome(ERDFILE))
    ELSE h
Read(c, w, x, h) ==
    LET k == ReadAt(c, w, x)
    IN IF k < 0 \/ x.op \notin {"enc", "dec", "info"} \/ (x.in # Hyphen /\ ~Has(w.files, x.in) /\ x.in \notin w.dirs) \/ k > Len(Ins(w, x, 1)) THEN h
       ELSE IF x.op = "info" THEN (IF k >= 96 THEN h ELSE CutAt(h, Take(Ins(w, x, 1), k)))
       ELSE LET e == PassFor(w, x)
            IN IF ~e.ok THEN h
               ELSE IF x.op = "enc" THEN (IF h.code = OK THEN [h EXCEPT !.code = ERDFILE] ELSE h)
               ELSE IF k < 96 THEN CutAt(h, Take(Ins(w, x, 1), k))
               ELSE IF h.code \in {OK, EINVAL} /\ h.touched THEN [h EXCEPT !.code = ERDFILE]
               ELSE h
\* The passphrase is read from the file: reading that may fail as well.
PassRead(c, x, h) == IF x.op \in {"enc", "dec"} /\ x.method = "file" /\ x.marg = Hex(c.rdin) /\ c.rdat >= 0 /\ h.code # -1 THEN Outcome(-1) ELSE h
\* Writing fails at position k (or not: -1), or closing.
WriteAt(c, h) == IF h.to = <<>> THEN (IF c.sout = "ok" THEN -1 ELSE 0) ELSE IF h.to[1] = Hex(c.wrto) THEN c.wrat ELSE -1
Written(c, h) ==
    IF ~h.touched THEN h
    ELSE LET k == WriteAt(c, h)
             ce == h.to # <<>> /\ h.to[1] = Hex(c.wrto) /\ c.wrclose = 1
         IN IF h.code = OK /\ ((k >= 0 /\ k < Len(h.data)) \/ ce) THEN [h EXCEPT !.code = EWRFILE, !.data = IF k < 0 THEN @ ELSE Take(@, k)]
            ELSE IF k >= 0 /\ k < Len(h.data) THEN [h EXCEPT !.data = Take(@, k)] ELSE h
Name(w) == Str(w)
InName(x) == IF x.in = Hyphen THEN "" ELSE Name(x.in)
OutName(x) == IF x.out = <<>> THEN "" ELSE Name(x.out[1])
Said(c, x, code) == IF code > 0 THEN SaysOnly(c.err, code, InName(x), OutName(x))
                    ELSE c.err # "" /\ \A e \in Errors \ {EWRFILE, ERDFILE} : ~Says(c.err, Message(e, "", ""))
Begins(b, d) == Len(b) <= Len(d) /\ b = SubSeq(d, 1, Len(b))
Wrote(b, h) == IF h.code = 0 THEN b = h.data ELSE Begins(b, h.data)
\* standard output, and what was changed
Stdout(c, h) == IF h.touched /\ h.to = <<>> THEN Wrote(Hex(c.out), h) ELSE c.out = ""
Files(c, w, h, must) ==
    IF h.touched /\ h.to # <<>>
    THEN IF c.changed = <<>> THEN ~must \/ (Has(w.files, h.to[1]) /\ Wrote(Of(w.files, h.to[1]), h))
         ELSE Len(c.changed) = 1 /\ Hex(c.changed[1].name) = h.to[1] /\ Wrote(Hex(c.changed[1].b), h)
    ELSE c.changed = <<>>
\* Errors of the library that hide behind the failure to write what was decrypted.
Codes2(c, x, h) == IF h.code = EINVAL /\ h.touched THEN {EINVAL} \cup (IF WriteAt(c, h) >= 0 THEN {EWRFILE} ELSE {}) ELSE {h.code}
\* NUL characters in what is entered as a passphrase: nothing is required.
Outside(w, x) ==
    /\ x.op \in {"enc", "dec"} /\ x.method \in {"", "tty-stdin", "stdin-once"}
    /\ \E k \in 1..Len(w.stdin) : w.stdin[k] = 0 /\ (LET e == PassFor(w, x) IN ~e.ok \/ k < e.next)
Ok(c) ==
    LET w == World(c)
        x == Meaning(Words2(c.argv))
        salt == IF Len(c.kdf) = 1 THEN Hex(c.kdf[1].salt) ELSE Zeros(32)
        h0 == Happens(w, x, salt)
        h == IF x.op \in {"refuse", "version"} THEN Written(c, h0) ELSE Written(c, PassRead(c, x, Read(c, w, x, h0)))
    IN /\ c.rc \in {0, 1}
       /\ c.rc = 1 => c.err # ""
       /\ \A k \in 1..Len(c.secrets) : ~HasText(c.err, c.secrets[k])
       /\ Outside(w, x) \/
          IF c.oom > 0 /\ c.rc = 1
          THEN Stdout(c, [h EXCEPT !.code = -1]) /\ Files(c, w, [h EXCEPT !.code = -1], FALSE)
          ELSE /\ c.rc = (IF h.code = 0 THEN 0 ELSE 1)
               /\ (h.code # 0 /\ x.op # "version") => \E k \in Codes2(c, x, h) : Said(c, x, k)
               /\ Stdout(c, h)
               /\ Files(c, w, h, TRUE)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
