--------------------------- MODULE MakeContainers ---------------------------
(* Containers written by the specification, for the code to read: a          *)
(* generator, evaluated once by TLC.                                         *)
EXTENDS Container, Json, IOUtils, TLC, Hex
In == ndJsonDeserialize(IOEnv.CASES)
Made == [i \in 1..Len(In) |->
    LET e == In[i]
        standin == IF "fake" \in DOMAIN e THEN e.fake = 1 ELSE FALSE
    IN [box |-> ToHex(IF standin THEN SealStandIn(Hex(e.pw), Hex(e.salt), e.logN, e.r, e.p, Hex(e.data))
                                 ELSE Seal(Hex(e.pw), Hex(e.salt), e.logN, e.r, e.p, Hex(e.data)))]]
ASSUME ndJsonSerialize(IOEnv.OUT, Made)
VARIABLE x
Init == x = 0
Next == FALSE /\ x' = x
=============================================================================
