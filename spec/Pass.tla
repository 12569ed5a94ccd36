--------------------------------- MODULE Pass ---------------------------------
(* Passphrase sources (S14), over sequences of byte values without zeros.    *)
(* A source is read line by line; a line longer than MaxText characters is   *)
(* read in pieces of that size.                                              *)
EXTENDS Integers, Sequences
MaxText == 2047
LF == 10
CR == 13
\* Position of the last character of the piece that starts at i.
RECURSIVE PieceEnd(_, _, _)
PieceEnd(s, i, n) == IF i > Len(s) THEN Len(s) ELSE IF s[i] = LF \/ n = MaxText THEN i ELSE PieceEnd(s, i + 1, n + 1)
Piece(s, i) == SubSeq(s, i, PieceEnd(s, i, 1))
\* Its text: what comes before its line terminator.
RECURSIVE TextEnd(_, _)
TextEnd(x, i) == IF i > Len(x) \/ x[i] = LF \/ x[i] = CR THEN i - 1 ELSE TextEnd(x, i + 1)
TextOf(x) == SubSeq(x, 1, TextEnd(x, 1))
NoPass == [ok |-> FALSE, text |-> <<>>, next |-> 0, asked |-> 0]
\* Entered at the terminal or read from standard input, from position i on:
\* once, or twice until both entries agree.  asked counts entries.
RECURSIVE Entered(_, _, _, _)
Entered(s, i, twice, asked) ==
    IF i > Len(s) THEN [NoPass EXCEPT !.asked = asked + 1]
    ELSE LET a == Piece(s, i)
             j == i + Len(a)
         IN IF ~twice THEN [ok |-> TRUE, text |-> TextOf(a), next |-> j, asked |-> asked + 1]
            ELSE IF j > Len(s) THEN [NoPass EXCEPT !.asked = asked + 2]
            ELSE LET b == Piece(s, j)
                 IN IF a = b THEN [ok |-> TRUE, text |-> TextOf(a), next |-> j + Len(b), asked |-> asked + 2]
                    ELSE Entered(s, j + Len(b), twice, asked + 2)
\* The only line of a file of up to MaxText characters.
OneLine(s) == Len(s) <= MaxText /\ \A i \in 1..Len(s) : s[i] = LF => i = Len(s)
FromFile(s) == IF OneLine(s) THEN [ok |-> TRUE, text |-> TextOf(s), next |-> Len(s) + 1, asked |-> 1] ELSE NoPass
\* A whole value.
AllOf(s) == [ok |-> TRUE, text |-> s, next |-> 1, asked |-> 0]
===============================================================================
