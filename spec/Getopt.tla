-------------------------------- MODULE Getopt --------------------------------
(* The documented grammar of options (S16), as a machine that reads words.   *)
(* Words are sequences of character codes.  A table of options has entries   *)
(* [name, arg]: "-x" or "--name", with an argument or not.                   *)
(*   state    i: the next word; pos: the next character within a group of    *)
(*            short options, or 0                                            *)
(*   Step     what is found there, and the next state                        *)
EXTENDS Integers, Sequences
Dash == 45
Equals == 61
Start == [i |-> 1, pos |-> 0]
IsGroup(w) == Len(w) >= 2 /\ w[1] = Dash /\ w[2] # Dash
IsLong(w) == Len(w) >= 3 /\ w[1] = Dash /\ w[2] = Dash
IsEnd(w) == w = <<Dash, Dash>>
\* Name and argument of a long option.
EqualsAt(w) == LET P == {k \in 1..Len(w) : w[k] = Equals} IN IF P = {} THEN 0 ELSE CHOOSE k \in P : \A m \in P : k <= m
LongName(w) == IF EqualsAt(w) = 0 THEN w ELSE SubSeq(w, 1, EqualsAt(w) - 1)
LongArg(w) == SubSeq(w, EqualsAt(w) + 1, Len(w))
Known(tab, n) == \E o \in 1..Len(tab) : tab[o].name = n
Takes(tab, n) == \E o \in 1..Len(tab) : tab[o].name = n /\ tab[o].arg
Found(k, n, a) == [k |-> k, name |-> n, arg |-> a]
End(i) == [found |-> Found("end", <<>>, <<>>), st |-> [i |-> i, pos |-> 0]]
\* An option whose argument would be the next word.
FromNext(argv, n, i) ==
    IF i > Len(argv) THEN [found |-> Found("missing", n, <<>>), st |-> [i |-> i, pos |-> 0]]
    ELSE [found |-> Found("optarg", n, argv[i]), st |-> [i |-> i + 1, pos |-> 0]]
Short(argv, st, tab) ==
    LET w == argv[st.i]
        n == <<Dash, w[st.pos]>>
        last == st.pos = Len(w)
        next == IF last THEN [i |-> st.i + 1, pos |-> 0] ELSE [i |-> st.i, pos |-> st.pos + 1]
    IN IF ~Known(tab, n) THEN [found |-> Found("unknown", n, <<>>), st |-> next]
       ELSE IF ~Takes(tab, n) THEN [found |-> Found("opt", n, <<>>), st |-> next]
       ELSE IF ~last THEN [found |-> Found("optarg", n, SubSeq(w, st.pos + 1, Len(w))), st |-> [i |-> st.i + 1, pos |-> 0]]
       ELSE FromNext(argv, n, st.i + 1)
Long(argv, st, tab) ==
    LET w == argv[st.i]
        n == LongName(w)
        next == [i |-> st.i + 1, pos |-> 0]
    IN IF ~Known(tab, n) THEN [found |-> Found("unknown", w, <<>>), st |-> next]
       ELSE IF Takes(tab, n) /\ EqualsAt(w) > 0 THEN [found |-> Found("optarg", n, LongArg(w)), st |-> next]
       ELSE IF Takes(tab, n) THEN FromNext(argv, n, st.i + 1)
       ELSE IF EqualsAt(w) > 0 THEN [found |-> Found("unknown", n, <<>>), st |-> next]
       ELSE [found |-> Found("opt", n, <<>>), st |-> next]
Step(argv, st, tab) ==
    IF st.i > Len(argv) THEN End(st.i)
    ELSE LET w == argv[st.i]
         IN IF st.pos > 0 THEN Short(argv, st, tab)
            ELSE IF IsGroup(w) THEN Short(argv, [st EXCEPT !.pos = 2], tab)
            ELSE IF IsEnd(w) THEN End(st.i + 1)
            ELSE IF IsLong(w) THEN Long(argv, st, tab)
            ELSE End(st.i)
\* Everything found, and where the operands start.
RECURSIVE Scan(_, _, _, _)
Scan(argv, st, tab, acc) ==
    LET s == Step(argv, st, tab)
    IN IF s.found.k = "end" THEN [all |-> acc, next |-> s.st.i]
       ELSE Scan(argv, s.st, tab, Append(acc, s.found))
Options(argv, tab) == Scan(argv, Start, tab, <<>>)

\* ---- text ----
Ascii == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~"
Code == [ch \in {SubSeq(Ascii, k, k) : k \in 1..Len(Ascii)} |-> 31 + CHOOSE k \in 1..Len(Ascii) : SubSeq(Ascii, k, k) = ch]
Codes(s) == [k \in 1..Len(s) |-> Code[SubSeq(s, k, k)]]
RECURSIVE Str(_)
Str(w) == IF w = <<>> THEN "" ELSE (IF w[1] \in 32..126 THEN SubSeq(Ascii, w[1] - 31, w[1] - 31) ELSE "?") \o Str(SubSeq(w, 2, Len(w)))
===============================================================================
