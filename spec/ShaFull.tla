------------------------------- MODULE ShaFull -------------------------------
(* How hashing buffers its input (S20), at full size, for Apalache: however   *)
(* the data is cut into updates, each block of 64 bytes is compressed once,   *)
(* in order and none left out, what is not compressed yet is in the buffer,   *)
(* and padding makes as many blocks as the standard says (one bit, the length *)
(* in eight bytes, and as few zeros as make whole blocks).                    *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    bits,    \* the counter of bits
    \* @type: Int;
    fed,     \* bytes given
    \* @type: Int;
    blocks,  \* blocks compressed
    \* @type: Int;
    fill,    \* bytes of the buffer that belong to the data
    \* @type: Bool;
    done
FConst == TRUE
FInit == bits = 0 /\ fed = 0 /\ blocks = 0 /\ fill = 0 /\ done = FALSE
R == (bits \div 8) % 64
Update(n) ==
    /\ ~done /\ n >= 1 /\ fed + n < 2 ^ 61
    /\ bits' = bits + 8 * n /\ fed' = fed + n
    /\ IF n < 64 - R THEN fill' = R + n /\ UNCHANGED blocks
       ELSE LET m == n - (64 - R)
            IN blocks' = blocks + 1 + (m \div 64) /\ fill' = m % 64
    /\ UNCHANGED done
Pad ==
    /\ ~done /\ done' = TRUE
    /\ blocks' = blocks + (IF R < 56 THEN 1 ELSE 2)
    /\ fill' = 0 /\ UNCHANGED <<bits, fed>>
FNext == (\E n \in Int : Update(n)) \/ Pad
FInd == /\ 0 <= fed /\ fed < 2 ^ 61 /\ bits = 8 * fed /\ bits < 2 ^ 64
        /\ (~done => fill = fed % 64 /\ 64 * blocks + fill = fed)
        /\ (done => 64 * blocks >= fed + 9 /\ 64 * (blocks - 1) < fed + 9)
FShape == bits \in Int /\ fed \in Int /\ blocks \in Int /\ fill \in Int /\ done \in BOOLEAN
FIndInit == FShape /\ FInd
FInv == FInd
==============================================================================
