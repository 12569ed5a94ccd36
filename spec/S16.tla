--------------------------------- MODULE S16 ---------------------------------
(* Command lines (S16).                                                      *)
(* kind "opts": what the option parser finds in argv (a table of options),   *)
(*   ev: the sequence of [k, name, arg], next: the index of the operands     *)
(* kind "cli": a whole command, in a world, and what came of it              *)
EXTENDS Cases, Cli, Hex
Words2(x) == [k \in 1..Len(x) |-> Hex(x[k])]
OptTab == <<[name |-> W("-a"), arg |-> FALSE], [name |-> W("-b"), arg |-> FALSE], [name |-> W("-x"), arg |-> TRUE], [name |-> W("-y"), arg |-> TRUE],
            [name |-> W("--foo"), arg |-> FALSE], [name |-> W("--fo"), arg |-> FALSE], [name |-> W("--bar"), arg |-> TRUE], [name |-> W("--barn"), arg |-> TRUE]>>
\* Without a handler of its own a missing argument is an unknown option.
Seen(f, handled) == [k |-> IF f.k = "missing" /\ ~handled THEN "unknown" ELSE f.k, name |-> f.name, arg |-> f.arg]
Opts(c) ==
    LET o == Options(Words2(c.argv), OptTab)
    IN /\ c.next = o.next
       /\ Len(c.ev) = Len(o.all)
       /\ \A k \in 1..Len(o.all) : [k |-> c.ev[k].k, name |-> Hex(c.ev[k].name), arg |-> Hex(c.ev[k].arg)] = Seen(o.all[k], c.handled = 1)

Pairs(fs) == [k \in 1..Len(fs) |-> [name |-> Hex(fs[k].name), b |-> Hex(fs[k].b)]]
World(c) == [stdin |-> Hex(c.stdin), files |-> Pairs(c.files), vars |-> Pairs(c.vars), total |-> c.total, sn |-> c.sn, sd |-> c.sd,
             fake |-> c.fake, fail |-> {c.fail[k] : k \in 1..Len(c.fail)}, dirs |-> {}, version |-> Hex(c.version)]
Quoted(w) == Str(w)
\* The diagnostic has the text for the result; for what is not a result of
\* the library there is some text, but none of those.
Said(c, x, code) ==
    IF code > 0 THEN SaysOnly(c.err, code, IF x.in = Hyphen THEN "" ELSE Str(x.in), IF x.out = <<>> THEN "" ELSE Str(x.out[1]))
    ELSE c.err # "" /\ \A e \in Errors \ {EWRFILE, ERDFILE} : ~Says(c.err, Message(e, "", ""))
\* NUL characters in what is entered as a passphrase: nothing is required.
Wrote(b, h) == IF h.code = 0 THEN b = h.data ELSE Len(b) <= Len(h.data) /\ b = SubSeq(h.data, 1, Len(b))
Outside(w, x) ==
    /\ x.op \in {"enc", "dec"} /\ x.method \in {"", "tty-stdin", "stdin-once"}
    /\ \E k \in 1..Len(w.stdin) : w.stdin[k] = 0 /\ (LET e == PassFor(w, x) IN ~e.ok \/ k < e.next)
Command(c) ==
    LET w == World(c)
        argv == Words2(c.argv)
        x == Meaning(argv)
        salt == IF Len(c.kdf) = 1 THEN Hex(c.kdf[1].salt) ELSE Zeros(32)
        h == Happens(w, x, salt)
    IN Outside(w, x) \/
       /\ c.rc = (IF h.code = 0 THEN 0 ELSE 1)
       /\ [k \in 1..Len(c.kdf) |-> [pw |-> Hex(c.kdf[k].pw), N |-> c.kdf[k].N, r |-> c.kdf[k].r, p |-> c.kdf[k].p]] = h.kdf
       /\ h.code # 0 => Said(c, x, h.code)
       /\ IF h.touched /\ h.to = <<>> THEN Wrote(Hex(c.out), h) ELSE c.out = ""
       \* nothing changes but the output file
       /\ IF h.touched /\ h.to # <<>>
          THEN IF c.changed = <<>> THEN Has(w.files, h.to[1]) /\ Wrote(Of(w.files, h.to[1]), h)
               ELSE Len(c.changed) = 1 /\ Hex(c.changed[1].name) = h.to[1] /\ Wrote(Hex(c.changed[1].b), h)
          ELSE c.changed = <<>>
       \* parameters are shown when asked for
       /\ HasText(c.err, "Parameters used: ") <=>
             (h.shows # <<>> \/ (x.op \in {"enc", "dec"} /\ x.verbose /\ (h.kdf # <<>> \/ h.code \in {ETOOBIG, ETOOSLOW, EBIGSLOW} \/ (x.op = "enc" /\ h.code = ESALT))))
       /\ h.shows # <<>> => Plainly(c.err, HLogN(h.shows), HR(h.shows), HP(h.shows))
       /\ (h.code = 0 /\ x.op \in {"enc", "dec"} /\ ~x.verbose /\ (x.op = "dec" \/ ((x.logN = 0 \/ x.force) /\ x.method \notin {"", "tty-stdin"}))) => c.err = ""
Ok(c) == IF c.k = "opts" THEN Opts(c) ELSE Command(c)
Inv == l \notin 1..Len(Cases) \/ Ok(Cases[l])
==============================================================================
