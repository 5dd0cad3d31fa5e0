---------------------------- MODULE FormatReader ----------------------------
(***************************************************************************)
(* Reading the format information: the first copy if it is readable, else  *)
(* the second, else failure.  `Word1`, `Word2` are the words received.     *)
(***************************************************************************)
EXTENDS QRFormat

CONSTANTS NumReads, Word1(_), Word2(_)
VARIABLES rd, fph, got

fvars == <<rd, fph, got>>

(* Number of one bits of every 15 bit word.                                *)
Ones == TLCEval([w \in 0 .. 32767 |-> PopCount(w)])
Closest(w) ==
  LET near == { k \in 1 .. 32 : Ones[w ^^ FormatWords[k]] <= 3 }
  IN IF near = {} THEN 0 - 1 ELSE (CHOOSE k \in near : TRUE) - 1

InitFmt == rd = 1 /\ fph = "first" /\ got = 0 - 1

ReadFirst == /\ fph = "first" /\ rd <= NumReads
             /\ got' = Closest(Word1(rd))
             /\ fph' = IF got' >= 0 THEN "done" ELSE "second"
             /\ UNCHANGED rd
ReadSecond == /\ fph = "second"
              /\ got' = Closest(Word2(rd))
              /\ fph' = "done"
              /\ UNCHANGED rd
Report == /\ fph = "done"
          /\ rd' = rd + 1 /\ fph' = "first" /\ got' = 0 - 1
=============================================================================
