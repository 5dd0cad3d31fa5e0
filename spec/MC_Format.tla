----------------------------- MODULE MC_Format ------------------------------
(***************************************************************************)
(* Every 15 bit word: at most one format word is within three bits, so     *)
(* that reading is well defined; and every format word is still read       *)
(* after any three flips.                                                  *)
(***************************************************************************)
EXTENDS FormatReader, FiniteSets
VARIABLES top, x
Init == top \in 0 .. 255 /\ x = 0 - 1 /\ rd = 0 /\ fph = "" /\ got = 0
Next == x < 0 /\ \E low \in 0 .. 127 : x' = 128 * top + low /\ UNCHANGED <<top, rd, fph, got>>
Near(w) == { k \in 0 .. 31 : TLCGet(1)[w ^^ TLCGet(2)[k + 1]] <= 3 }
Unique == x >= 0 => Cardinality(Near(x)) <= 1
Flip(w, a) == w ^^ (2 ^ a)
Tolerates == x >= 0 =>
  \A k \in { k \in 0 .. 31 : TLCGet(2)[k + 1] = x } :
    /\ Near(x) = {k} /\ FormatWord(EccOf(k), MaskOf(k)) = x
    /\ \A a, b, c \in 0 .. 14 :
         /\ Near(Flip(x, a)) = {k}
         /\ a < b => Near(Flip(Flip(x, a), b)) = {k}
         /\ a < b /\ b < c => Near(Flip(Flip(Flip(x, a), b), c)) = {k}
ASSUME FormatOK
ASSUME TLCSet(1, Ones) /\ TLCSet(2, FormatWords)
None(i) == 0
NoReads == 0
=============================================================================
