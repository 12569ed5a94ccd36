------------------------------- MODULE Bytes -------------------------------
(* Byte strings are sequences over 0..255.                                  *)
EXTENDS Integers, Sequences, SequencesExt, Bitwise

Byte == 0..255

XorBytes(s, t) == [i \in 1..Len(s) |-> s[i] ^^ t[i]]

Zeros(n) == [i \in 1..n |-> 0]
Const(n, b) == [i \in 1..n |-> b]

\* Bytes from (zero-based, half open) a to b of s.
Slice(s, a, b) == SubSeq(s, a + 1, b)

Take(s, n) == SubSeq(s, 1, IF n < Len(s) THEN n ELSE Len(s))
Drop(s, n) == SubSeq(s, n + 1, Len(s))

IsPrefixOf(s, t) == Len(s) <= Len(t) /\ SubSeq(t, 1, Len(s)) = s

\* Big-endian encoding of a small natural number on n bytes.
RECURSIVE BE(_, _)
BE(x, n) == IF n = 0 THEN <<>> ELSE Append(BE(x \div 256, n - 1), x % 256)

\* Value of a big-endian byte string (only for values below 2^31).
BEVal(s) == FoldLeft(LAMBDA acc, b : acc * 256 + b, 0, s)

\* Add one to a big-endian byte string (modulo 256^Len).
RECURSIVE BEInc(_)
BEInc(s) == IF Len(s) = 0 THEN s
            ELSE IF s[Len(s)] = 255
                 THEN Append(BEInc(SubSeq(s, 1, Len(s) - 1)), 0)
                 ELSE [s EXCEPT ![Len(s)] = @ + 1]

\* The sequence <<a, a + 1, ..., b>>.
Upto(a, b) == [i \in 1..(b - a + 1) |-> a + i - 1]

ConcatAll(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
=============================================================================
