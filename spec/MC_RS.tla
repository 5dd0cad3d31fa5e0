------------------------------- MODULE MC_RS --------------------------------
(***************************************************************************)
(* Every received word of a small code: `Correct` finds the code word      *)
(* within half the parity exactly when there is one, and never passes off  *)
(* anything that is not a code word.                                       *)
(***************************************************************************)
EXTENDS ReedSolomon, FiniteSets
CONSTANTS Length, NPar
VARIABLES w, full
Symbols == 0 .. Order - 1
Data == [1 .. Length - NPar -> Symbols]
Gen == TLCEval(Generator(NPar))
Code == TLCEval({ TLCEval([i \in 1 .. Length - NPar |-> d[i]] \o ParityG([i \in 1 .. Length - NPar |-> d[i]], NPar, Gen)) : d \in Data })
(* two symbols first, then the others: many successors, for many workers *)
Init == full = FALSE /\ w \in { <<a, z>> : <<a, z>> \in Symbols \X Symbols }
Next == ~full /\ full' = TRUE /\ \E r \in [1 .. Length - 2 -> Symbols] : w' = w \o r
Word == w
Near == { x \in TLCGet(1) : Dist(Word, x) * 2 <= NPar }
Decides ==
  full =>
  LET near == Near
      r == Correct(Word, NPar)
  IN /\ Cardinality(near) <= 1
     /\ (near # {}) <=> (r.tag = "within")
     /\ near # {} => r.cw \in near
     /\ r.tag = "beyond" => r.cw \in TLCGet(1)
ASSUME TLCSet(1, Code)
(* the code's minimum distance is what the capacity needs *)
ASSUME \A x \in Code : (\E i \in 1 .. Length : x[i] # 0) => Dist(x, [i \in 1 .. Length |-> 0]) >= NPar + 1
=============================================================================
