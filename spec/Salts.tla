-------------------------------- MODULE Salts --------------------------------
(* Salts used by real encryptions in several processes: all different.       *)
EXTENDS Cases, FiniteSets
All == UNION {{<<i, j>> : j \in 1..Len(Cases[i].salts)} : i \in 1..Len(Cases)}
Inv == l < 0 \/ (/\ Cases[l].rc = 0
                 /\ Cardinality({Cases[p[1]].salts[p[2]] : p \in All}) = Cardinality(All))
=============================================================================
