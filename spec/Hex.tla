-------------------------------- MODULE Hex --------------------------------
(* Byte strings in records are written in hexadecimal.  Hex is evaluated by  *)
(* the Java class of the same name; HexPure is its meaning (CryptoEquiv      *)
(* compares them).                                                           *)
LOCAL INSTANCE Integers
LOCAL INSTANCE Sequences
LOCAL INSTANCE TLC
LOCAL Digit == [c \in {"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f"} |->
    CHOOSE v \in 0..15 : SubSeq("0123456789abcdef", v + 1, v + 1) = c]
HexPure(s) == [i \in 1..(Len(s) \div 2) |->
    Digit[SubSeq(s, 2 * i - 1, 2 * i - 1)] * 16 + Digit[SubSeq(s, 2 * i, 2 * i)]]
Hex(s) == HexPure(s)
HexM(s) == Hex(s)      \* the same, remembered
LOCAL HexDigit(v) == SubSeq("0123456789abcdef", v + 1, v + 1)
RECURSIVE ToHexPure(_)
ToHexPure(b) == IF Len(b) = 0 THEN "" ELSE HexDigit(Head(b) \div 16) \o HexDigit(Head(b) % 16) \o ToHexPure(Tail(b))
ToHex(b) == ToHexPure(b)
=============================================================================
