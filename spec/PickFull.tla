------------------------------- MODULE PickFull -------------------------------
(* The choice of parameters (see PickDesign.tla) at full size, for Apalache:  *)
(* all memory budgets of 64 bits and all amounts of operations, however       *)
(* large.  N is found as the code does it, by trying the powers of two one    *)
(* after another.                                                             *)
EXTENDS Integers
VARIABLES
    \* @type: Int;
    mem,
    \* @type: Int;
    ops,
    \* @type: Int;
    n,
    \* @type: Int;
    p,
    \* @type: Bool;
    done
R == 8
Cap == 2 ^ 30 - 1
Op == IF ops < 32768 THEN 32768 ELSE ops
\* the loop stops at pow, the first power of two above half of maxN, or at 2^63
StopsCpu(pow) == (64 * pow > Op \/ pow = 2 ^ 63) /\ (pow = 2 \/ 32 * pow <= Op)
StopsMem(pow) == LET maxN == mem \div 1024 IN (2 * pow > maxN \/ pow = 2 ^ 63) /\ (pow = 2 \/ pow <= maxN)
Picks(pow) ==
    /\ ~done /\ done' = TRUE
    /\ n' = pow
    /\ UNCHANGED <<mem, ops>>
    /\ \/ Op * 32 < mem /\ StopsCpu(pow) /\ p' = 1
       \/ /\ Op * 32 >= mem /\ StopsMem(pow)
          /\ LET q == (Op \div 4) \div pow
             IN p' = (IF q > Cap THEN Cap ELSE q) \div R
PfInit == /\ mem \in Int /\ mem >= 2 ^ 20 /\ mem < 2 ^ 64
          /\ ops \in Int /\ ops >= 0
          /\ n = 0 /\ p = 0 /\ done = FALSE
PfNext ==
    \/ Picks(2 ^ 1)
    \/ Picks(2 ^ 2)
    \/ Picks(2 ^ 3)
    \/ Picks(2 ^ 4)
    \/ Picks(2 ^ 5)
    \/ Picks(2 ^ 6)
    \/ Picks(2 ^ 7)
    \/ Picks(2 ^ 8)
    \/ Picks(2 ^ 9)
    \/ Picks(2 ^ 10)
    \/ Picks(2 ^ 11)
    \/ Picks(2 ^ 12)
    \/ Picks(2 ^ 13)
    \/ Picks(2 ^ 14)
    \/ Picks(2 ^ 15)
    \/ Picks(2 ^ 16)
    \/ Picks(2 ^ 17)
    \/ Picks(2 ^ 18)
    \/ Picks(2 ^ 19)
    \/ Picks(2 ^ 20)
    \/ Picks(2 ^ 21)
    \/ Picks(2 ^ 22)
    \/ Picks(2 ^ 23)
    \/ Picks(2 ^ 24)
    \/ Picks(2 ^ 25)
    \/ Picks(2 ^ 26)
    \/ Picks(2 ^ 27)
    \/ Picks(2 ^ 28)
    \/ Picks(2 ^ 29)
    \/ Picks(2 ^ 30)
    \/ Picks(2 ^ 31)
    \/ Picks(2 ^ 32)
    \/ Picks(2 ^ 33)
    \/ Picks(2 ^ 34)
    \/ Picks(2 ^ 35)
    \/ Picks(2 ^ 36)
    \/ Picks(2 ^ 37)
    \/ Picks(2 ^ 38)
    \/ Picks(2 ^ 39)
    \/ Picks(2 ^ 40)
    \/ Picks(2 ^ 41)
    \/ Picks(2 ^ 42)
    \/ Picks(2 ^ 43)
    \/ Picks(2 ^ 44)
    \/ Picks(2 ^ 45)
    \/ Picks(2 ^ 46)
    \/ Picks(2 ^ 47)
    \/ Picks(2 ^ 48)
    \/ Picks(2 ^ 49)
    \/ Picks(2 ^ 50)
    \/ Picks(2 ^ 51)
    \/ Picks(2 ^ 52)
    \/ Picks(2 ^ 53)
    \/ Picks(2 ^ 54)
    \/ Picks(2 ^ 55)
    \/ Picks(2 ^ 56)
    \/ Picks(2 ^ 57)
    \/ Picks(2 ^ 58)
    \/ Picks(2 ^ 59)
    \/ Picks(2 ^ 60)
    \/ Picks(2 ^ 61)
    \/ Picks(2 ^ 62)
    \/ Picks(2 ^ 63)
\* What it is to satisfy; N in 2^0 .. 2^63, so that products are of a variable
\* and a number.
Fits(pow, k) == 1024 * pow <= mem /\ 32 * pow * k <= Op
Demand(pow) ==
    n = pow => /\ Fits(pow, 1) /\ ~Fits(2 * pow, 1)
               /\ p >= 1 /\ R * p <= Cap
               /\ Fits(pow, p)
               /\ (R * (p + 1) > Cap \/ ~Fits(pow, p + 1))
\* some choice is always made
Chooses(pow) == (Op * 32 < mem /\ StopsCpu(pow)) \/ (Op * 32 >= mem /\ StopsMem(pow))
PfTotal == 
    \/ Chooses(2 ^ 1)
    \/ Chooses(2 ^ 2)
    \/ Chooses(2 ^ 3)
    \/ Chooses(2 ^ 4)
    \/ Chooses(2 ^ 5)
    \/ Chooses(2 ^ 6)
    \/ Chooses(2 ^ 7)
    \/ Chooses(2 ^ 8)
    \/ Chooses(2 ^ 9)
    \/ Chooses(2 ^ 10)
    \/ Chooses(2 ^ 11)
    \/ Chooses(2 ^ 12)
    \/ Chooses(2 ^ 13)
    \/ Chooses(2 ^ 14)
    \/ Chooses(2 ^ 15)
    \/ Chooses(2 ^ 16)
    \/ Chooses(2 ^ 17)
    \/ Chooses(2 ^ 18)
    \/ Chooses(2 ^ 19)
    \/ Chooses(2 ^ 20)
    \/ Chooses(2 ^ 21)
    \/ Chooses(2 ^ 22)
    \/ Chooses(2 ^ 23)
    \/ Chooses(2 ^ 24)
    \/ Chooses(2 ^ 25)
    \/ Chooses(2 ^ 26)
    \/ Chooses(2 ^ 27)
    \/ Chooses(2 ^ 28)
    \/ Chooses(2 ^ 29)
    \/ Chooses(2 ^ 30)
    \/ Chooses(2 ^ 31)
    \/ Chooses(2 ^ 32)
    \/ Chooses(2 ^ 33)
    \/ Chooses(2 ^ 34)
    \/ Chooses(2 ^ 35)
    \/ Chooses(2 ^ 36)
    \/ Chooses(2 ^ 37)
    \/ Chooses(2 ^ 38)
    \/ Chooses(2 ^ 39)
    \/ Chooses(2 ^ 40)
    \/ Chooses(2 ^ 41)
    \/ Chooses(2 ^ 42)
    \/ Chooses(2 ^ 43)
    \/ Chooses(2 ^ 44)
    \/ Chooses(2 ^ 45)
    \/ Chooses(2 ^ 46)
    \/ Chooses(2 ^ 47)
    \/ Chooses(2 ^ 48)
    \/ Chooses(2 ^ 49)
    \/ Chooses(2 ^ 50)
    \/ Chooses(2 ^ 51)
    \/ Chooses(2 ^ 52)
    \/ Chooses(2 ^ 53)
    \/ Chooses(2 ^ 54)
    \/ Chooses(2 ^ 55)
    \/ Chooses(2 ^ 56)
    \/ Chooses(2 ^ 57)
    \/ Chooses(2 ^ 58)
    \/ Chooses(2 ^ 59)
    \/ Chooses(2 ^ 60)
    \/ Chooses(2 ^ 61)
    \/ Chooses(2 ^ 62)
    \/ Chooses(2 ^ 63)
PfInv == /\ PfTotal
         /\ done =>
            /\ Demand(2 ^ 1)
            /\ Demand(2 ^ 2)
            /\ Demand(2 ^ 3)
            /\ Demand(2 ^ 4)
            /\ Demand(2 ^ 5)
            /\ Demand(2 ^ 6)
            /\ Demand(2 ^ 7)
            /\ Demand(2 ^ 8)
            /\ Demand(2 ^ 9)
            /\ Demand(2 ^ 10)
            /\ Demand(2 ^ 11)
            /\ Demand(2 ^ 12)
            /\ Demand(2 ^ 13)
            /\ Demand(2 ^ 14)
            /\ Demand(2 ^ 15)
            /\ Demand(2 ^ 16)
            /\ Demand(2 ^ 17)
            /\ Demand(2 ^ 18)
            /\ Demand(2 ^ 19)
            /\ Demand(2 ^ 20)
            /\ Demand(2 ^ 21)
            /\ Demand(2 ^ 22)
            /\ Demand(2 ^ 23)
            /\ Demand(2 ^ 24)
            /\ Demand(2 ^ 25)
            /\ Demand(2 ^ 26)
            /\ Demand(2 ^ 27)
            /\ Demand(2 ^ 28)
            /\ Demand(2 ^ 29)
            /\ Demand(2 ^ 30)
            /\ Demand(2 ^ 31)
            /\ Demand(2 ^ 32)
            /\ Demand(2 ^ 33)
            /\ Demand(2 ^ 34)
            /\ Demand(2 ^ 35)
            /\ Demand(2 ^ 36)
            /\ Demand(2 ^ 37)
            /\ Demand(2 ^ 38)
            /\ Demand(2 ^ 39)
            /\ Demand(2 ^ 40)
            /\ Demand(2 ^ 41)
            /\ Demand(2 ^ 42)
            /\ Demand(2 ^ 43)
            /\ Demand(2 ^ 44)
            /\ Demand(2 ^ 45)
            /\ Demand(2 ^ 46)
            /\ Demand(2 ^ 47)
            /\ Demand(2 ^ 48)
            /\ Demand(2 ^ 49)
            /\ Demand(2 ^ 50)
            /\ Demand(2 ^ 51)
            /\ Demand(2 ^ 52)
            /\ Demand(2 ^ 53)
            /\ Demand(2 ^ 54)
            /\ Demand(2 ^ 55)
            /\ Demand(2 ^ 56)
            /\ Demand(2 ^ 57)
            /\ Demand(2 ^ 58)
            /\ Demand(2 ^ 59)
            /\ Demand(2 ^ 60)
            /\ Demand(2 ^ 61)
            /\ Demand(2 ^ 62)
            /\ Demand(2 ^ 63)
===============================================================================
