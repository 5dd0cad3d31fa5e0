----------------------------- MODULE MC_Finder ------------------------------
(***************************************************************************)
(* Searching again: for all sequences of candidates over a few regions,    *)
(* a second pass over the same candidates claims nothing new, and what is  *)
(* claimed never depends on candidates that come later.                    *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Region, MaxLen
VARIABLES seq, i, pass, cl, first
vars == <<seq, i, pass, cl, first>>
Cands == { <<r, t>> : r \in Region, t \in Region }
Init == seq = << >> /\ i = 0 /\ pass = 0 /\ cl = {} /\ first = {}
Add == pass = 0 /\ Len(seq) < MaxLen /\ \E q \in Cands : seq' = Append(seq, q) /\ UNCHANGED <<i, pass, cl, first>>
Go == pass = 0 /\ pass' = 1 /\ i' = 1 /\ UNCHANGED <<seq, cl, first>>
Look == /\ pass > 0 /\ i <= Len(seq)
        /\ cl' = IF seq[i][1] # seq[i][2] /\ seq[i][1] \notin cl /\ seq[i][2] \notin cl THEN cl \cup {seq[i][1]} ELSE cl
        /\ i' = i + 1 /\ UNCHANGED <<seq, pass, first>>
Again == pass = 1 /\ i > Len(seq) /\ pass' = 2 /\ i' = 1 /\ first' = cl /\ UNCHANGED <<seq, cl>>
Next == Add \/ Go \/ Look \/ Again
NothingNew == pass = 2 => cl = first
=============================================================================
