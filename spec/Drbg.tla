-------------------------------- MODULE Drbg --------------------------------
(* The random generator (S13): HMAC_DRBG of NIST SP 800-90A, section 10.1.2, *)
(* without personalisation and additional input, seeded and reseeded from    *)
(* the operating system, and optionally stirred with CPU randomness after    *)
(* each (re)seeding.                                                         *)
(*                                                                           *)
(* A request runs as far as it can (Run); when the generator is not yet      *)
(* instantiated or a reseed is due, it needs entropy from the system, which  *)
(* arrives in pieces or not at all.                                          *)
EXTENDS Integers, Sequences, Bytes, CryptoFast

CONSTANTS ReseedInterval,   \* 256 requests
          MaxRequest        \* 65536 bytes

\* Generator state: instantiated?, Key, V, requests since (re)seeding + 1.
Fresh == [inst |-> FALSE, K |-> Zeros(32), V |-> Const(32, 1), ctr |-> 0]

DUpdate(st, data) ==
    LET K1 == FHmac(st.K, st.V \o <<0>> \o data)
        V1 == FHmac(K1, st.V)
        K2 == FHmac(K1, V1 \o <<1>> \o data)
        V2 == FHmac(K2, V1)
    IN IF data = <<>> THEN [st EXCEPT !.K = K1, !.V = V1]
       ELSE [st EXCEPT !.K = K2, !.V = V2]

Instantiate(seed) == DUpdate([inst |-> TRUE, K |-> Zeros(32), V |-> Const(32, 1), ctr |-> 1], seed)
Reseed(st, seed) == [DUpdate(st, seed) EXCEPT !.ctr = 1]
SeedLen(st) == IF st.inst THEN 32 ELSE 48
Seed(st, seed) == IF st.inst THEN Reseed(st, seed) ELSE Instantiate(seed)

\* One generate step of at most MaxRequest bytes: <<new state, output>>
Chain(K, V, n) ==   \* V, then n further iterates are output
    FoldLeft(LAMBDA a, i : LET v == FHmac(K, a[1]) IN <<v, a[2] \o v>>, <<V, <<>>>>, Upto(1, n))
Generate(st, n) ==
    LET c == Chain(st.K, st.V, (n + 31) \div 32)
        s1 == DUpdate([st EXCEPT !.V = c[1]], <<>>)
    IN <<[s1 EXCEPT !.ctr = @ + 1], Take(c[2], n)>>

NeedsSeed(st, remaining) == (~st.inst) \/ (remaining > 0 /\ st.ctr > ReseedInterval)

\* Run a request of which `remaining` bytes are to be produced as far as
\* possible: <<state, output, remaining>>
RECURSIVE Run(_, _, _)
Run(st, out, remaining) ==
    IF NeedsSeed(st, remaining) \/ remaining = 0 THEN <<st, out, remaining>>
    ELSE LET n == IF remaining > MaxRequest THEN MaxRequest ELSE remaining
             g == Generate(st, n)
         IN Run(g[1], out \o g[2], remaining - n)

VARIABLES st,       \* the generator
          busy,     \* a request is in progress
          out,      \* what it has produced
          rem,      \* what it has still to produce
          pool,     \* entropy received for the (re)seeding in progress
          err,      \* has a system call failed during this request?
          stirred   \* CPU randomness has been mixed in since the seeding
dvars == <<st, busy, out, rem, pool, err, stirred>>

DInit == /\ st = Fresh /\ busy = FALSE /\ out = <<>> /\ rem = 0 /\ pool = <<>>
         /\ err = FALSE /\ stirred = TRUE

Request(n) ==
    /\ ~busy
    /\ busy' = TRUE /\ out' = <<>> /\ rem' = n /\ pool' = <<>> /\ err' = FALSE
    /\ UNCHANGED <<st, stirred>>

\* The request has been run up to the point where it needs entropy.
Blocked == LET r == Run(st, out, rem) IN NeedsSeed(r[1], r[3])

SysError == /\ busy /\ err' = TRUE
            /\ UNCHANGED <<st, busy, out, rem, pool, stirred>>

\* The system delivers the bytes d.
Entropy(d) ==
    /\ busy /\ Len(d) > 0
    /\ IF pool = <<>>
       THEN LET r == Run(st, out, rem)
            IN /\ NeedsSeed(r[1], r[3])          \* entropy is asked for only when needed
               /\ out' = r[2] /\ rem' = r[3]
               /\ Len(d) <= SeedLen(r[1])
               /\ IF Len(d) = SeedLen(r[1])
                  THEN st' = Seed(r[1], d) /\ pool' = <<>> /\ stirred' = FALSE
                  ELSE st' = r[1] /\ pool' = d /\ UNCHANGED stirred
       ELSE LET p == pool \o d
            IN /\ Len(p) <= SeedLen(st)
               /\ UNCHANGED <<out, rem>>
               /\ IF Len(p) = SeedLen(st)
                  THEN st' = Seed(st, p) /\ pool' = <<>> /\ stirred' = FALSE
                  ELSE pool' = p /\ UNCHANGED <<st, stirred>>
    /\ UNCHANGED <<busy, err>>

\* CPU randomness is an addition directly after a seeding, never an
\* alternative to it.
CpuRandom(ok, d) ==
    /\ busy /\ ~stirred /\ pool = <<>>
    /\ stirred' = TRUE
    /\ st' = IF ok THEN DUpdate(st, d) ELSE st
    /\ UNCHANGED <<busy, out, rem, pool, err>>

Done(ok, result) ==
    /\ busy
    /\ IF pool # <<>> THEN ~ok /\ err /\ UNCHANGED st
       ELSE LET r == Run(st, out, rem)
            IN /\ st' = r[1]
               /\ IF NeedsSeed(r[1], r[3]) THEN ~ok /\ err
                  ELSE /\ ok = TRUE
                       /\ result = r[2]
    /\ busy' = FALSE /\ out' = <<>> /\ rem' = 0 /\ pool' = <<>> /\ err' = FALSE
    /\ stirred' = TRUE
=============================================================================
