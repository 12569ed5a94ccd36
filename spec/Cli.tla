--------------------------------- MODULE Cli ---------------------------------
(* The command (S16, S24): what a command line means, and what has to come   *)
(* of it given standard input, files, variables, the limits of the machine   *)
(* and what goes wrong.  Words and contents are sequences of bytes.          *)
EXTENDS Getopt, Num, Container, Pass, Display, Messages, TLC
W(s) == Codes(s)
Tab == <<[name |-> W("-f"), arg |-> FALSE], [name |-> W("--logN"), arg |-> TRUE], [name |-> W("-M"), arg |-> TRUE],
         [name |-> W("-m"), arg |-> TRUE], [name |-> W("-p"), arg |-> TRUE], [name |-> W("--passphrase"), arg |-> TRUE],
         [name |-> W("-r"), arg |-> TRUE], [name |-> W("-t"), arg |-> TRUE], [name |-> W("-v"), arg |-> FALSE], [name |-> W("-P"), arg |-> FALSE]>>
Hyphen == <<Dash>>

\* ---- the meaning of a command line ----
Settings(op) == [op |-> op, force |-> FALSE, verbose |-> FALSE, logN |-> 0, r |-> 0, p |-> 0, maxmem |-> B0,
                 frac |-> IF op = "enc" THEN <<B1, BN(8)>> ELSE <<B1, BN(2)>>,
                 time |-> IF op = "enc" THEN <<BN(5), B1>> ELSE <<BN(300), B1>>,
                 method |-> "", marg |-> <<>>]
\* (a small number)
RECURSIVE Small(_)
Small(b) == IF b = <<>> THEN 0 ELSE b[1] + BB * Small(SubSeq(b, 2, Len(b)))
IntOf(a, lo, hi) == IF IntAccepts(a, 0, FALSE, <<FALSE, BN(lo)>>, <<FALSE, BN(hi)>>) THEN Small(IntValue(a, 0)[2]) ELSE -1
\* A real number of zero or more: <<num, den>>, den = 0 for infinity; or none.
Bad == <<>>
RealOf(a) == LET n == RealText(a)
             IN IF ~n.ok \/ n.used # Len(a) \/ n.kind = "nan" \/ (n.neg /\ n.num # B0) THEN Bad
                ELSE IF n.kind = "inf" THEN (IF n.neg THEN Bad ELSE <<B1, B0>>)
                ELSE <<n.num, n.den>>
Prefixed(a, x) == Len(a) >= Len(x) /\ SubSeq(a, 1, Len(x)) = x
Method(a) == CASE a = W("dev:tty-stdin") -> "tty-stdin" [] a = W("dev:stdin-once") -> "stdin-once" [] a = W("dev:tty-once") -> "tty-once"
               [] Prefixed(a, W("env:")) -> "env" [] Prefixed(a, W("file:")) -> "file" [] OTHER -> ""
Refuse == [op |-> "refuse"]
Apply(x, f) ==
    IF x.op = "refuse" \/ f.k \in {"unknown", "missing"} THEN Refuse
    ELSE CASE f.name = W("-f") -> [x EXCEPT !.force = TRUE]
           [] f.name = W("-v") -> [x EXCEPT !.verbose = TRUE]
           [] f.name = W("--logN") -> LET v == IntOf(f.arg, 10, 40) IN IF v < 0 THEN Refuse ELSE [x EXCEPT !.logN = v]
           [] f.name = W("-r") -> LET v == IntOf(f.arg, 1, 32) IN IF v < 0 THEN Refuse ELSE [x EXCEPT !.r = v]
           [] f.name = W("-p") -> LET v == IntOf(f.arg, 1, 2048) IN IF v < 0 THEN Refuse ELSE [x EXCEPT !.p = v]
           [] f.name = W("-M") -> IF SizeAccepts(f.arg) THEN [x EXCEPT !.maxmem = SizeText(f.arg).mag] ELSE Refuse
           [] f.name = W("-m") -> LET v == RealOf(f.arg) IN IF v = Bad \/ v[2] = B0 THEN Refuse
                                                            ELSE IF ~BLe(BMul(v[1], BN(2)), v[2]) THEN Refuse ELSE [x EXCEPT !.frac = v]
           [] f.name = W("-t") -> LET v == RealOf(f.arg) IN IF v = Bad THEN Refuse ELSE [x EXCEPT !.time = v]
           [] f.name = W("-P") -> IF x.method # "" THEN Refuse ELSE [x EXCEPT !.method = "stdin-once"]
           [] f.name = W("--passphrase") -> IF x.method # "" \/ Method(f.arg) = "" THEN Refuse
                                            ELSE [x EXCEPT !.method = Method(f.arg), !.marg = SubSeq(f.arg, (IF Method(f.arg) = "file" THEN 6 ELSE 5), Len(f.arg))]
RECURSIVE ApplyAll(_, _)
ApplyAll(x, fs) == IF fs = <<>> THEN x ELSE ApplyAll(Apply(x, fs[1]), SubSeq(fs, 2, Len(fs)))
Meaning(argv) ==
    IF argv = <<>> THEN Refuse
    ELSE IF argv[1] = W("--version") THEN [op |-> "version"]
    ELSE IF argv[1] \notin {W("enc"), W("dec"), W("info")} THEN Refuse
    ELSE LET words == SubSeq(argv, 2, Len(argv))
             o == Options(words, Tab)
             x == ApplyAll(Settings(CASE argv[1] = W("enc") -> "enc" [] argv[1] = W("dec") -> "dec" [] OTHER -> "info"), o.all)
             rest == SubSeq(words, o.next, Len(words))
         IN IF x.op = "refuse" THEN Refuse
            ELSE IF Len(rest) \notin {1, 2} THEN Refuse
            ELSE IF ~(x.logN = 0 /\ x.r = 0 /\ x.p = 0) /\ (x.logN = 0 \/ x.r = 0 \/ x.p = 0) THEN Refuse
            ELSE IF x.frac[1] = B0 THEN Refuse
            ELSE IF x.method = "stdin-once" /\ rest[1] = Hyphen THEN Refuse
            ELSE x @@ [in |-> rest[1], out |-> IF Len(rest) = 2 THEN <<rest[2]>> ELSE <<>>]

\* ---- the world a command runs in ----
\*   stdin, files (sequence of [name, b]), vars (sequence of [name, b]), dirs (set of names of directories)
\*   total memory; sn/sd operations per second
\*   fake    keys are derived with N = 2, r = p = 1 whatever the parameters
\*   fail    what goes wrong: "limit", "clock", "entropy", "kdf"
Has(fs, n) == \E k \in 1..Len(fs) : fs[k].name = n
Of(fs, n) == fs[CHOOSE k \in 1..Len(fs) : fs[k].name = n].b
\* Names without a slash can be created.
Creatable(n) == n # <<>> /\ \A k \in 1..Len(n) : n[k] # 47

MemLimit(w, x) ==
    LET scaled == BDiv(BMul(w.total, x.frac[1]), x.frac[2])
    IN BMax(MiB, IF x.maxmem = B0 THEN scaled ELSE BMin(scaled, x.maxmem))
OpsLimit(w, x) == <<BMul(w.sn, x.time[1]), BMul(w.sd, x.time[2])>>
LimitsOf(w, x) == IF x.force THEN [force |-> 1] ELSE [force |-> 0, mem |-> MemLimit(w, x), num |-> OpsLimit(w, x)[1], den |-> OpsLimit(w, x)[2]]

PassFor(w, x) ==
    CASE x.method \in {"", "tty-stdin"} -> Entered(w.stdin, 1, x.op = "enc", 0)
      [] x.method = "stdin-once" -> Entered(w.stdin, 1, FALSE, 0)
      [] x.method = "tty-once" -> NoPass
      [] x.method = "env" -> IF Has(w.vars, x.marg) THEN AllOf(Of(w.vars, x.marg)) ELSE NoPass
      [] x.method = "file" -> IF Has(w.files, x.marg) THEN FromFile(Of(w.files, x.marg)) ELSE NoPass
Key(w, pw, salt, logN, r, p) == IF w.fake = 1 THEN FScrypt(pw, salt, 2, 1, 1, 64) ELSE FScrypt(pw, salt, 2 ^ logN, r, p, 64)

\* ---- what comes of it ----
\*   code     0, a result of the library, or -1 for anything else that is wrong
\*   kdf      the keys derived: passphrase and parameters
\*   data     what is written (or, if that fails, some beginning of it); to: the output file, or <<>> for standard output
\*   touched  whether output was started
Outcome(code) == [code |-> code, kdf |-> <<>>, touched |-> FALSE, to |-> <<>>, data |-> <<>>, shows |-> <<>>]
Kdf(pw, logN, r, p) == <<[pw |-> pw, N |-> BPow2(logN), r |-> r, p |-> p]>>
Ins(w, x, i0) == IF x.in = Hyphen THEN SubSeq(w.stdin, i0, Len(w.stdin)) ELSE IF x.in \in w.dirs THEN <<>> ELSE Of(w.files, x.in)
NoOutput(w, x) == x.out # <<>> /\ (~Creatable(x.out[1]) \/ x.out[1] \in w.dirs)
\* salt: the one used
Encrypt(w, x, pw, data, salt) ==
    LET ex == x.logN # 0
        asks == ~(ex /\ x.force)        \* the limits matter
        q == IF ex THEN [logN |-> x.logN, r |-> BN(x.r), p |-> BN(x.p)]
             ELSE Picked(MemLimit(w, x), OpsLimit(w, x)[1], OpsLimit(w, x)[2])
        o == [Outcome(0) EXCEPT !.touched = TRUE, !.to = x.out]
        dk == Key(w, pw, salt, q.logN, Small(q.r), Small(q.p))
    IN IF NoOutput(w, x) THEN Outcome(-1)
       ELSE IF asks /\ "limit" \in w.fail THEN [o EXCEPT !.code = ELIMIT]
       ELSE IF asks /\ "clock" \in w.fail THEN [o EXCEPT !.code = ECLOCK]
       ELSE IF "entropy" \in w.fail THEN [o EXCEPT !.code = ESALT]
       ELSE IF "kdf" \in w.fail THEN [o EXCEPT !.code = EKEY, !.kdf = Kdf(pw, q.logN, q.r, q.p)]
       ELSE [o EXCEPT !.kdf = Kdf(pw, q.logN, q.r, q.p), !.data = SealKey(dk, salt, q.logN, Small(q.r), Small(q.p), data)]
Decrypt(w, x, pw, b) ==
    LET e0 == EarlyVerdict(b, [force |-> 1])
        e == EarlyVerdict(b, LimitsOf(w, x))
        k == Kdf(pw, HLogN(b), HR(b), HP(b))
        dk == IF w.fake = 1 THEN FScrypt(pw, SaltOf(b), 2, 1, 1, 64) ELSE DKey(pw, b)
        o == [Outcome(0) EXCEPT !.kdf = k, !.touched = TRUE, !.to = x.out]
    IN IF e0 # OK THEN Outcome(e0)
       ELSE IF ~x.force /\ "limit" \in w.fail THEN Outcome(ELIMIT)
       ELSE IF ~x.force /\ "clock" \in w.fail THEN Outcome(ECLOCK)
       ELSE IF e # OK THEN Outcome(e)
       ELSE IF "kdf" \in w.fail THEN [Outcome(EKEY) EXCEPT !.kdf = k]
       ELSE IF ~HeadSigned(dk, b) THEN [Outcome(EPASS) EXCEPT !.kdf = k]
       ELSE IF NoOutput(w, x) THEN [Outcome(-1) EXCEPT !.kdf = k]
       ELSE IF AllSigned(dk, b) THEN [o EXCEPT !.data = PlainOf(dk, b)] ELSE [o EXCEPT !.code = EINVAL, !.data = IF Len(b) < 128 THEN <<>> ELSE PlainOf(dk, b)]
Happens(w, x, salt) ==
    IF x.op = "refuse" THEN Outcome(-1)
    ELSE IF x.op = "version" THEN [Outcome(0) EXCEPT !.touched = TRUE, !.data = w.version]
    ELSE IF x.in # Hyphen /\ ~Has(w.files, x.in) /\ x.in \notin w.dirs THEN Outcome(-1)
    ELSE IF x.op = "info" THEN LET b == Ins(w, x, 1) IN [Outcome(InfoVerdict(b)) EXCEPT !.shows = IF InfoVerdict(b) = OK THEN b ELSE <<>>]
    ELSE LET e == PassFor(w, x)
         IN IF ~e.ok THEN Outcome(-1)
            ELSE LET b == Ins(w, x, IF x.method \in {"", "tty-stdin", "stdin-once"} THEN e.next ELSE 1)
                 IN IF x.op = "enc" THEN Encrypt(w, x, e.text, b, salt) ELSE Decrypt(w, x, e.text, b)
===============================================================================
