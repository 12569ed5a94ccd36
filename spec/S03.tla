--------------------------------- MODULE S03 ---------------------------------
(* S03: what encryption produced is the documented format.                   *)
EXTENDS Container, Cases, Hex
LenOk(c) == Len(c.out) = Len(c.data) + 2 * 128      \* in hexadecimal digits
Params(c) == LET b == Hex(c.out) IN <<HLogN(b), SmallR(b), SmallP(b)>>
Ok(c) ==
    /\ c.rc = 0
    /\ c.guards = 1
    /\ LenOk(c)
    /\ LET b == Hex(c.out)
           q == Params(c)
       IN \* the parameters are those asked for, ...
          /\ q[1] \in 1..63 /\ q[2] > 0 /\ q[3] > 0
          /\ c.want # <<>> => q = c.want
          \* ... those reported to the caller ...
          /\ c.rep # <<>> => q = c.rep
          \* ... and those the one key was derived with
          /\ c.observed = 1 =>
             /\ Len(c.kdf) = 1
             /\ c.kdf[1].N = BPow2(q[1]) /\ c.kdf[1].r = BN(q[2]) /\ c.kdf[1].p = BN(q[3])
          /\ b = IF c.fake = 1 THEN SealStandIn(Hex(c.pw), SaltOf(b), q[1], q[2], q[3], Hex(c.data))
                  ELSE Seal(Hex(c.pw), SaltOf(b), q[1], q[2], q[3], Hex(c.data))
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
