------------------------------- MODULE Secrets -------------------------------
(* What must not be left in memory (S22): for a passphrase and a derived key, *)
(* what the specification computes from them on the way to the container.     *)
(* (The keys of one encryption or decryption of n bytes.)                     *)
EXTENDS Container, Aes, Json, IOUtils, TLC, Hex
In == ndJsonDeserialize(IOEnv.CASES)
Flat(ws) == FoldLeft(LAMBDA acc, w : acc \o w, <<>>, ws)
Swapped(ws) == FoldLeft(LAMBDA acc, w : acc \o <<w[4], w[3], w[2], w[1]>>, <<>>, ws)
KeyOf(x) == IF x.dk # "" THEN Hex(x.dk) ELSE FScrypt(Hex(x.pw), Hex(x.salt), 2 ^ x.logN, x.r, x.p, 64)
Made == [i \in 1..Len(In) |->
    LET dk == KeyOf(In[i])
        ws == KeyWords(Take(dk, 32))
    IN [dk |-> ToHex(dk), words |-> ToHex(Flat(ws)), swapped |-> ToHex(Swapped(ws)),
        stream |-> ToHex(FAesCtr(Take(dk, 32), Zero8, Zero8, 0, [k \in 1..In[i].n |-> 0]))]]
ASSUME ndJsonSerialize(IOEnv.OUT, Made)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
===============================================================================
