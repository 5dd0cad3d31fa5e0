----------------------------- MODULE MC_Groups ------------------------------
(* Any set of at most MaxViable viable triples over N patterns.            *)
EXTENDS Groups, FiniteSetsExt
CONSTANT MaxViable
All == { <<i, s>> : i \in P, s \in { s \in SUBSET P : Cardinality(s) = 2 } }
Proper == { t \in All : t[1] \notin t[2] }
Init == InitGroups /\ viable \in UNION { kSubset(k, Proper) : k \in 0 .. MaxViable }
=============================================================================
