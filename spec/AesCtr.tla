------------------------------- MODULE AesCtr -------------------------------
(* AES-CTR streams (S19): each stream has a key, a nonce and a position;     *)
(* output byte i is input byte i XORed with the keystream byte at that       *)
(* position, and nothing else matters.                                       *)
EXTENDS Integers, Sequences, CryptoFast

VARIABLES keys,   \* key name -> key bytes, <<>> if none
          strs    \* stream name -> [key, nonce, blk, off], position 16*blk+off
avars == <<keys, strs>>

\* 8-byte big-endian arithmetic modulo 2^64.
RECURSIVE BEAdd(_, _, _)
BEAdd(a, b, c) ==
    IF Len(a) = 0 THEN <<>>
    ELSE LET n == Len(a)
             s == a[n] + b[n] + c
         IN Append(BEAdd(SubSeq(a, 1, n - 1), SubSeq(b, 1, n - 1), s \div 256), s % 256)
BE8(x) == <<0, 0, 0, 0, x \div 16777216, (x \div 65536) % 256, (x \div 256) % 256, x % 256>>
Zero8 == <<0, 0, 0, 0, 0, 0, 0, 0>>

AInit == keys = [k \in 0..15 |-> <<>>] /\ strs = [s \in 0..15 |-> [on |-> FALSE]]
NewKey(k, b) == keys' = [keys EXCEPT ![k] = b] /\ UNCHANGED strs
FreeKey(k) == keys' = [keys EXCEPT ![k] = <<>>] /\ UNCHANGED strs
Open(s, k, nonce) ==
    /\ keys[k] # <<>>
    /\ strs' = [strs EXCEPT ![s] = [on |-> TRUE, key |-> k, nonce |-> nonce, blk |-> Zero8, off |-> 0]]
    /\ UNCHANGED keys
Reset(s, nonce) ==   \* keeps the key
    /\ strs[s].on
    /\ strs' = [strs EXCEPT ![s].nonce = nonce, ![s].blk = Zero8, ![s].off = 0]
    /\ UNCHANGED keys
Close(s) == strs' = [strs EXCEPT ![s] = [on |-> FALSE]] /\ UNCHANGED keys
Advance(s, n) ==     \* n < 2^31 - 16
    LET q == strs[s].off + n
    IN strs' = [strs EXCEPT ![s].blk = BEAdd(@, BE8(q \div 16), 0), ![s].off = q % 16]
Crypt(s, in, out) ==
    /\ strs[s].on
    /\ out = FAesCtr(keys[strs[s].key], strs[s].nonce, strs[s].blk, strs[s].off, in)
    /\ Advance(s, Len(in))
    /\ UNCHANGED keys
Skip(s, n) == strs[s].on /\ Advance(s, n) /\ UNCHANGED keys
\* A position far into the stream (only block-aligned positions are used).
Jump(s, blk) == /\ strs[s].on /\ strs[s].off = 0
                /\ strs' = [strs EXCEPT ![s].blk = blk]
                /\ UNCHANGED keys
OneShot(k, nonce, in, out) ==
    /\ keys[k] # <<>>
    /\ out = FAesCtr(keys[k], nonce, Zero8, 0, in)
    /\ UNCHANGED avars
Block(k, in, out) ==
    /\ keys[k] # <<>>
    /\ out = FAesBlock(keys[k], in)
    /\ UNCHANGED avars
=============================================================================
