----------------------------- MODULE AccelTrace -----------------------------
(* Recorded processes: what they computed and which cores ran.               *)
EXTENDS Accel, Traces, CryptoFast, Hex
FeatOf(s) == {f \in Features : s[f] = 1}
BadOf(s) == {c \in Accelerated \cup Tested : s[c] = 1}
TInit == TrInit /\ AccelInit /\ feat = FeatOf(Traces[t].feat) /\ bad = BadOf(Traces[t].bad)

\* Number of calls of core c during the operation (the portable SHA-256 and
\* the AES of the library are not observed: no field).
Unseen == {"soft", "aessoft"}
Ran(c) == Ev.ran[c] > 0
Alg(kind) == CASE kind \in {"sha", "hmac"} -> {"sha"} [] kind = "aes" -> {"aes"}
               [] kind = "scrypt" -> {"sha", "smix"} [] kind \in {"enc", "dec"} -> Algs
Used == Alg(Ev.kind)
CoresOk ==
    /\ \A a \in Algs : \A c \in Cores(a) \ Unseen : Ran(c) => MayRun(a, c)
    \* and the chosen one does run (which of its functions AES-NI uses is its
    \* own business, but it cannot work without expanding the key)
    /\ \A a \in Used : choice'[a] \notin Unseen => Ran(choice'[a])
Right ==
    CASE Ev.kind = "sha"    -> Hex(Ev.out) = FSha256(Hex(Ev.in))
      [] Ev.kind = "hmac"   -> Hex(Ev.out) = FHmac(Hex(Ev.key), Hex(Ev.in))
      [] Ev.kind = "aes"    -> Hex(Ev.out) = FAesCtr(Hex(Ev.key), Hex(Ev.nonce), <<0,0,0,0,0,0,0,0>>, 0, Hex(Ev.in))
      [] Ev.kind = "scrypt" -> Ev.rc = 0 /\ Hex(Ev.out) = FScrypt(Hex(Ev.pw), Hex(Ev.salt), Ev.N, Ev.r, Ev.p, Ev.len)
      [] Ev.kind = "dec"    -> Ev.rc = 0 /\ Hex(Ev.out) = Hex(Ev.plain)
      [] Ev.kind = "enc"    -> Ev.rc = 0
TNext ==
    \/ IsEvent("op") /\ Use(Used) /\ CoresOk /\ Right
    \* without a healthy core: it ends, or reports failure, or finds a way
    \* that is right
    \/ IsEvent("op") /\ (((Ev.kind \in {"scrypt", "enc", "dec"} /\ Ev.rc # 0) \/ Right) = TRUE)
         /\ ~Possible(Used) /\ UNCHANGED avars
    \/ IsEvent("end") /\ Ev.abort = 1 /\ Refuse(Used)
    \/ IsEvent("mend") /\ ~over /\ bad' = {} /\ UNCHANGED <<feat, choice, trusted, truth, over>>
    \/ Finished /\ UNCHANGED <<avars, tvars>>
=============================================================================
