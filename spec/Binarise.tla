------------------------------ MODULE Binarise ------------------------------
(***************************************************************************)
(* From grey to black and white.                                           *)
(*                                                                         *)
(* Two running means a and b travel along each row in opposite directions, *)
(* changing sides on every row and carried over from row to row.  At every *)
(* pixel a mean loses one part in s (s an eighth of the width, at least 1) *)
(* and gains the pixel.  A pixel is black when it is darker than the mean  *)
(* of both at that place, less five percent.                               *)
(* Pictures are flat sequences of grey values, row by row.                 *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, TLC

CONSTANTS NumGreys, Grey(_), GWidth(_), GHeight(_)
VARIABLES gc,     \* number of the picture
          row,    \* next row, from 0
          ma, mb, \* the two means
          bw      \* rows of black and white so far
gvars == <<gc, row, ma, mb, bw>>

Window(w) == IF w \div 8 > 1 THEN w \div 8 ELSE 1
(* m - ceil(m / s) = floor(m (s - 1) / s), without large products.         *)
Decay(m, s, px) == m - ((m + s - 1) \div s) + px

(* Values of a mean along the pixels px, started from m (the first entry). *)
Along(px, s, m) ==
  FoldLeft(LAMBDA acc, p: Append(acc, Decay(acc[Len(acc)], s, p)), <<m>>, px)

Line(g, w, y) == SubSeq(g, y * w + 1, (y + 1) * w)

(* On even rows a runs from right to left and b from left to right.        *)
RowResult(px, s, even, a, b) ==
  LET w == Len(px)
      right == TLCEval(Along(px, s, IF even THEN b ELSE a))
      left == TLCEval(Along(Reverse(px), s, IF even THEN a ELSE b))
  IN [a |-> IF even THEN left[w + 1] ELSE right[w + 1],
      b |-> IF even THEN right[w + 1] ELSE left[w + 1],
      bw |-> [x \in 1 .. w |->
                IF px[x] < ((right[x + 1] + left[w + 2 - x]) * 95) \div (200 * s) THEN 1 ELSE 0]]

InitBin == gc = 1 /\ row = 0 /\ ma = 0 /\ mb = 0 /\ bw = << >>
BinRow == /\ gc <= NumGreys /\ row < GHeight(gc) /\ GWidth(gc) > 0
          /\ LET r == TLCEval(RowResult(Line(Grey(gc), GWidth(gc), row), Window(GWidth(gc)), row % 2 = 0, ma, mb))
             IN ma' = r.a /\ mb' = r.b /\ bw' = Append(bw, r.bw)
          /\ row' = row + 1 /\ UNCHANGED gc
BinDone == gc <= NumGreys /\ (row = GHeight(gc) \/ GWidth(gc) = 0)
NextGrey == BinDone /\ gc' = gc + 1 /\ row' = 0 /\ ma' = 0 /\ mb' = 0 /\ bw' = << >>
=============================================================================
