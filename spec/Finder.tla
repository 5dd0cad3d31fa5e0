------------------------------- MODULE Finder -------------------------------
(***************************************************************************)
(* The search for finder patterns in a picture, as a state machine over    *)
(* the picture's candidates in reading order.                              *)
(*                                                                         *)
(* A candidate ends at run i when the last three black runs of its row and *)
(* the two gaps between them are in the proportion 1:1:3:1:1 (each within  *)
(* three quarters of a module).  It is a finder pattern if the two outer   *)
(* runs belong to one region (the ring), the inner run to another (the     *)
(* stone), neither is the ring of a pattern found before, and the stone    *)
(* has more than 10 and less than 70 percent of the ring's area.  The ring *)
(* is then claimed.  Nothing else influences the search: not how many      *)
(* regions there are, nor which ones were looked at before.                *)
(***************************************************************************)
EXTENDS Regions

CONSTANTS NumPics, Pic(_)
VARIABLES pc,      \* number of the picture
          step,    \* "load", "scan", "report"
          cand,    \* its candidates, as run numbers
          at,      \* next candidate to examine
          claimed  \* rings claimed so far
fndvars == <<pc, step, cand, at, claimed>>

Near(l, k, avg) == LET err == (avg * 3) \div 4 IN l >= k * avg - err /\ l <= k * avg + err
Candidate(p, i) ==
  /\ i > 2
  /\ RowOf(p, i - 2) = RowOf(p, i)
  /\ LET g1 == First(p, i - 1) - Last(p, i - 2) - 1
         g2 == First(p, i) - Last(p, i - 1) - 1
         avg == (Size(p, i - 2) + g1 + g2 + Size(p, i)) \div 4
     IN /\ Near(Size(p, i - 2), 1, avg) /\ Near(g1, 1, avg) /\ Near(Size(p, i - 1), 3, avg)
        /\ Near(g2, 1, avg) /\ Near(Size(p, i), 1, avg)

Pattern(p, i, cl) ==
  LET ring == p.lab[i]
      stone == p.lab[i - 1]
      ratio == (Area(p, stone) * 100) \div Area(p, ring)
  IN /\ p.lab[i - 2] = ring /\ stone # ring
     /\ ring \notin cl /\ stone \notin cl
     /\ 10 < ratio /\ ratio < 70

InitFind == pc = 1 /\ step = "load" /\ cand = << >> /\ at = 1 /\ claimed = {}

Load == /\ step = "load" /\ pc <= NumPics
        /\ Assert(PictureOK(Pic(pc)), <<"certificate", pc>>)
        /\ cand' = SelectSeq([i \in 1 .. NRuns(Pic(pc)) |-> i], LAMBDA i : Candidate(Pic(pc), i))
        /\ step' = "scan" /\ at' = 1 /\ claimed' = {}
        /\ UNCHANGED pc
Examine == /\ step = "scan" /\ at <= Len(cand)
           /\ claimed' = IF Pattern(Pic(pc), cand[at], claimed) THEN claimed \cup {Pic(pc).lab[cand[at]]} ELSE claimed
           /\ at' = at + 1
           /\ UNCHANGED <<pc, step, cand>>
Scanned == /\ step = "scan" /\ at > Len(cand)
           /\ step' = "report"
           /\ UNCHANGED <<pc, cand, at, claimed>>
NextPic == /\ step = "report"
           /\ pc' = pc + 1 /\ step' = "load" /\ cand' = << >> /\ at' = 1 /\ claimed' = {}
=============================================================================
