----------------------------- MODULE HashStream -----------------------------
(* Hash and HMAC contexts: what each must return depends on its own key and  *)
(* the concatenation of what was fed to it, whatever the cutting and         *)
(* whatever other contexts do in between (S20).                              *)
EXTENDS Integers, Sequences, CryptoFast

CONSTANTS Ctx
VARIABLES hctx    \* context -> [mode, key, msg]
HOff == [mode |-> "off", key |-> <<>>, msg |-> <<>>]
HInit == hctx = [k \in Ctx |-> HOff]
ShaInit(k) == hctx' = [hctx EXCEPT ![k] = [mode |-> "sha", key |-> <<>>, msg |-> <<>>]]
HmacInit(k, key) == hctx' = [hctx EXCEPT ![k] = [mode |-> "hmac", key |-> key, msg |-> <<>>]]
Update(k, d) == /\ hctx[k].mode # "off"
                /\ hctx' = [hctx EXCEPT ![k].msg = @ \o d]
Result(k) == CASE hctx[k].mode = "sha" -> FSha256(hctx[k].msg)
               [] hctx[k].mode = "hmac" -> FHmac(hctx[k].key, hctx[k].msg)
Final(k, out) == /\ hctx[k].mode # "off"
                 /\ out = Result(k)
                 /\ hctx' = [hctx EXCEPT ![k] = HOff]
=============================================================================
