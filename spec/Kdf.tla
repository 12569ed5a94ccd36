--------------------------------- MODULE Kdf ---------------------------------
(* One call after another of the key-derivation function, as its caller and  *)
(* the memory allocator see it (S02).                                        *)
EXTENDS Integers, FiniteSets

VARIABLES phase,   \* "idle" or "run"
          dom,     \* are the arguments of this call inside the domain?
          failed,  \* has an allocation of this call failed?
          worked,  \* has this call started computing?
          live,    \* memory blocks this call holds
          rc       \* result of the last call
kvars == <<phase, dom, failed, worked, live, rc>>

KInit == /\ phase = "idle" /\ dom = FALSE /\ failed = FALSE /\ worked = FALSE
         /\ live = {} /\ rc = 0

Call(d) == /\ phase = "idle"
           /\ phase' = "run" /\ dom' = d /\ failed' = FALSE /\ worked' = FALSE
           /\ UNCHANGED <<live, rc>>
Alloc(id) == /\ phase = "run" /\ dom /\ id \notin live
             /\ live' = live \cup {id}
             /\ UNCHANGED <<phase, dom, failed, worked, rc>>
AllocFail == /\ phase = "run" /\ dom
             /\ failed' = TRUE
             /\ UNCHANGED <<phase, dom, worked, live, rc>>
Free(id) == /\ phase = "run" /\ id \in live
            /\ live' = live \ {id}
            /\ UNCHANGED <<phase, dom, failed, worked, rc>>
Work == /\ phase = "run" /\ dom /\ ~failed
        /\ worked' = TRUE
        /\ UNCHANGED <<phase, dom, failed, live, rc>>
Return(x) == /\ phase = "run" /\ live = {}
             /\ x \in {0, -1}
             /\ x = 0 <=> (dom /\ ~failed)
             /\ rc' = x /\ phase' = "idle"
             /\ UNCHANGED <<dom, failed, worked, live>>
KNext == \/ \E d \in BOOLEAN : Call(d)
         \/ \E id \in 1..3 : Alloc(id) \/ Free(id)
         \/ AllocFail \/ Work
         \/ \E x \in {0, -1} : Return(x)

NoLeak == phase = "idle" => live = {}
RejectedBeforeWork == (~dom) => (~worked /\ live = {})
TruthfulResult == phase = "idle" => (rc = 0 => ~failed)
KInv == NoLeak /\ RejectedBeforeWork /\ TruthfulResult
=============================================================================
