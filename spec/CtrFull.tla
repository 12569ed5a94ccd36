------------------------------- MODULE CtrFull -------------------------------
(* How the stream cipher keeps its counter (S19): the block is incremented in *)
(* its last byte and written anew only when that wraps, parts of a block are  *)
(* taken from a buffer, and accelerated code writes whole blocks by itself.   *)
(* For Apalache, at full size: FInd is an inductive invariant -- every byte   *)
(* is encrypted with the block of its position, however the data is cut into  *)
(* calls and whichever of the two codes does each.                            *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    ctr,    \* bytes so far
    \* @type: Int;
    lo,     \* last byte of the counter block
    \* @type: Int;
    hi,     \* the seven bytes before
    \* @type: Int;
    blk,    \* number of the block whose keystream is in the buffer
    \* @type: Bool;
    right   \* each byte so far was encrypted with its block
Top == 2 ^ 64
FConst == TRUE
FInit == ctr = 0 /\ lo = 255 /\ hi \in Int /\ 0 <= hi /\ hi < 2 ^ 56 /\ blk = 0 /\ right = TRUE
\* the rest of a block, or some of it
Rest(n) ==
    /\ ctr % 16 # 0 /\ n >= 1 /\ (ctr % 16) + n <= 16 /\ ctr + n < Top
    /\ right' = (right /\ blk = ctr \div 16)
    /\ ctr' = ctr + n /\ UNCHANGED <<lo, hi, blk>>
\* a new block, of which n bytes are used
Generate(n) ==
    /\ ctr % 16 = 0 /\ n >= 1 /\ n <= 16 /\ ctr + n < Top
    /\ lo' = (lo + 1) % 256
    /\ hi' = (IF lo = 255 THEN (ctr \div 16) \div 256 ELSE hi)
    /\ blk' = hi' * 256 + lo'
    /\ right' = (right /\ blk' = ctr \div 16)
    /\ ctr' = ctr + n
\* k blocks by accelerated code: the last counter is written back
Blocks(k) ==
    /\ ctr % 16 = 0 /\ k >= 1 /\ ctr + 16 * k < Top
    /\ LET last == (ctr \div 16) + k - 1
       IN lo' = last % 256 /\ hi' = last \div 256
    /\ ctr' = ctr + 16 * k /\ UNCHANGED <<blk, right>>
FNext == \/ \E n \in Int : Rest(n)
         \/ \E n \in Int : Generate(n)
         \/ \E k \in Int : Blocks(k)
Made == (ctr + 15) \div 16    \* blocks generated
FInd == /\ 0 <= ctr /\ ctr < Top /\ 0 <= lo /\ lo <= 255 /\ 0 <= hi /\ hi < 2 ^ 56
        /\ right
        /\ (Made = 0 => lo = 255)
        /\ (Made > 0 => lo = (Made - 1) % 256 /\ hi = (Made - 1) \div 256)
        /\ (ctr % 16 # 0 => blk = ctr \div 16)
FShape == ctr \in Int /\ lo \in Int /\ hi \in Int /\ blk \in Int /\ right \in BOOLEAN
FIndInit == FShape /\ FInd
FInv == FInd
==============================================================================
