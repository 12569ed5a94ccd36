--------------------------------- MODULE S25 ---------------------------------
(* What came of key derivation and hashing by several threads (S25): what    *)
(* comes of it in one thread, whatever the schedule.                          *)
(*   feat, bad   features of the machine, faulty cores                        *)
(*   status      0, or minus the signal by which the process ended            *)
(*   live        memory obtained and not released                             *)
(*   ops, res    what was done, by all threads, and its result                *)
EXTENDS Cases, CryptoFast, Hex, AccelOrder

Feat(c) == {c.feat[k] : k \in 1..Len(c.feat)}
Bad(c) == {c.bad[k] : k \in 1..Len(c.bad)}
Truth(o) ==
    CASE o.kind = "scrypt" -> FScrypt(Hex(o.a), Hex(o.b), o.N, o.r, o.p, o.len)
      [] o.kind \in {"sha", "shaparts"} -> FSha256(Hex(o.b))
      [] o.kind \in {"hmac", "hmacparts"} -> FHmac(Hex(o.a), Hex(o.b))
      [] o.kind = "pbkdf2" -> FPbkdf2(Hex(o.a), Hex(o.b), o.N, o.len)
Works(c) == Healthy("smix", Feat(c), Bad(c)) # {} \/ \A k \in 1..Len(c.ops) : c.ops[k].kind # "scrypt"
Ok(c) == IF Works(c) THEN /\ c.status = 0 /\ c.live = 0 /\ Len(c.res) = Len(c.ops)
                          /\ \A k \in 1..Len(c.ops) : c.res[k].rc = 0 /\ Hex(c.res[k].out) = Truth(c.ops[k])
         ELSE c.status = -6
Inv == l < 0 \/ Ok(Cases[l])
==============================================================================
