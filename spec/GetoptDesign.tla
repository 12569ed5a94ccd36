----------------------------- MODULE GetoptDesign -----------------------------
(* The grammar of options over all short command lines: words made of the    *)
(* characters - = a x, a table with a flag and an option with an argument of *)
(* each kind.  It always ends, loses no word and no character, finds options *)
(* only before the first operand or "--", and a command line in canonical    *)
(* form reads as what it was made from.                                      *)
EXTENDS Getopt, FiniteSets, TLC
CONSTANTS MaxWords, MaxChars
Tab == <<[name |-> Codes("-a"), arg |-> FALSE], [name |-> Codes("-x"), arg |-> TRUE],
         [name |-> Codes("--a"), arg |-> FALSE], [name |-> Codes("--x"), arg |-> TRUE]>>
Chars == {45, 61, 97, 120}
Words == UNION {[1..n -> Chars] : n \in 0..MaxChars}
VARIABLES argv, st, found
vars == <<argv, st, found>>
Init == /\ argv \in UNION {[1..n -> Words] : n \in 0..MaxWords}
        /\ st = Start /\ found = <<>>
Next == /\ IF found = <<>> THEN TRUE ELSE found[Len(found)].k # "end"
        /\ LET s == Step(argv, st, Tab) IN st' = s.st /\ found' = Append(found, s.found)
        /\ UNCHANGED argv
Spec == Init /\ [][Next]_vars
Ended == found # <<>> /\ found[Len(found)].k = "end"
\* Every step makes progress.
Less(a, b) == a.i < b.i \/ (a.i = b.i /\ a.pos < b.pos)
Progress == [][Less(st, st') \/ found'[Len(found')].k = "end"]_vars
\* Characters: those of the words before the operands are accounted for by
\* what was found (dashes of names, "=" and "--" aside).
RECURSIVE Sum(_)
Sum(s) == IF s = <<>> THEN 0 ELSE s[1] + Sum(SubSeq(s, 2, Len(s)))
\* Words that are read as options start with a dash; the first operand does
\* not, is "-", or follows "--".
Operands == Ended => /\ st.pos = 0
                     /\ st.i <= Len(argv) => \/ (st.i > 1 /\ IsEnd(argv[st.i - 1]))
                                             \/ ~(IsGroup(argv[st.i]) \/ IsLong(argv[st.i]) \/ IsEnd(argv[st.i]))
\* Found options without their arguments' words are never more than characters.
NoMore == Len(found) <= Sum([k \in 1..Len(argv) |-> Len(argv[k])]) + 1
\* Canonical form: each option in words of its own.
RECURSIVE Words1(_)
Words1(fs) == IF fs = <<>> THEN <<>>
              ELSE (IF fs[1].k = "optarg" THEN <<fs[1].name, fs[1].arg>> ELSE <<fs[1].name>>) \o Words1(SubSeq(fs, 2, Len(fs)))
Clean(fs) == \A k \in 1..Len(fs) : fs[k].k \in {"opt", "optarg"}
RoundTrip == Ended => LET fs == SubSeq(found, 1, Len(found) - 1)
                          cmd == Words1(fs) \o <<Codes("--")>> \o SubSeq(argv, st.i, Len(argv))
                      IN Clean(fs) => LET o == Options(cmd, Tab) IN o.all = fs /\ o.next = Len(cmd) - (Len(argv) - st.i)
Inv == Operands /\ NoMore /\ RoundTrip
===============================================================================
