------------------------------ MODULE TSearch -------------------------------
(* Trace validation of searches: each record is one picture and everything *)
(* that was observed of searching it.                                      *)
EXTENDS Scene, FiniteSets, IOUtils, Json

Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TrPics == Len(Tr)
TrPic(i) == Tr[i]

(* Shaded runs q: <<row, first, length, shade>> *)
NSh(q) == Len(q) \div 4
Shade(q, i) == q[4 * i]
SameInk(t, q) == /\ NSh(q) = NRuns(t)
                 /\ \A i \in 1 .. NRuns(t) : q[4 * i - 3] = t.bl[3 * i - 2] /\ q[4 * i - 2] = t.bl[3 * i - 1]
                                             /\ q[4 * i - 1] = t.bl[3 * i]
Whole(t, q) == \A i \in 1 .. NRuns(t) : Shade(q, i) = Shade(q, t.lab[i])
WithShade(t, q, s) == { r \in Regs(t) : Shade(q, r) = s }
Finders(t, q) == WithShade(t, q, 2)
Aligns(t, q) == WithShade(t, q, 3)

Asked(t) == { t.ask[k] : k \in 1 .. Len(t.ask) }
(* shades before and after a repeated search, for what is claimed *)
Holds(c, t) ==
  CASE c = "white"   -> SameInk(t, t.al)
    [] c = "whole"   -> /\ SameInk(t, t.al) /\ Whole(t, t.al)
                        /\ SameInk(t, t.al2) /\ Whole(t, t.al2)
    [] c = "align"   -> /\ SameInk(t, t.al)
                        /\ Aligns(t, t.al) \cap claimed = {}
                        /\ 3 * Cardinality(Aligns(t, t.al)) <= Cardinality(claimed)
                        /\ WithShade(t, t.al, 4) = {}
    [] c = "claimed" -> SameInk(t, t.al) /\ Finders(t, t.al) = claimed
    [] c = "few"     -> 3 * Len(t.grids) <= Cardinality(claimed)
    [] c = "again"   -> t.again = << >> /\ SameInk(t, t.al2) /\ Finders(t, t.al2) = claimed
    [] c = "clone"   -> t.clone = t.grids /\ t.unt
    [] c = "untouched" -> t.unt
    [] c = "late"    -> t.late = t.again
    [] c = "buffer"  -> t.buf = t.grids /\ t.albuf = t.al
    [] c = "grey"    -> t.gg = t.grids /\ t.alg = t.al /\ t.gb = t.grids /\ t.algb = t.al
    [] c = "found"   -> AllFound(t.sc, t.grids)

(* The contract about scenes applies when the picture really is the scene, *)
(* and nothing else in it can be taken for a finder pattern.               *)
Applies(c, t) == c = "found" => (OnlyItsFinders(t, t.sc, claimed) /\ Unambiguous(t.sc))
Broken(t) == { c \in Asked(t) : Applies(c, t) /\ ~Holds(c, t) }

Report == LET bad == TLCEval(Broken(Tr[pc]))
          IN /\ TLCSet(2, [broken |-> bad, claimed |-> claimed,
                           grids |-> [k \in 1 .. Len(Tr[pc].grids) |-> <<Tr[pc].grids[k].n, Tr[pc].grids[k].b, Tr[pc].grids[k].res>>]])
             /\ bad = {}
             /\ (IF \A c \in Asked(Tr[pc]) : Applies(c, Tr[pc]) THEN TRUE ELSE TLCSet(4, TLCGet(4) + 1))
             /\ NextPic

Next == \/ /\ step = "load" /\ pc <= Len(Tr)
           /\ Assert(Tr[pc].sc # << >> => Shows(Tr[pc], Tr[pc].sc, Tr[pc].quiet), <<"not the scene", Tr[pc].id>>)
           /\ Load
        \/ Examine \/ Scanned
        \/ step = "report" /\ Report
Spec == InitFind /\ [][Next]_fndvars

Note == (IF pc > TLCGet(1) THEN TLCSet(1, pc) /\ TLCSet(2, {}) ELSE TRUE)
ASSUME TLCSet(1, 0) /\ TLCSet(2, {}) /\ TLCSet(4, 0)
Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"VACUOUS", TLCGet(4)>>) /\ PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id, TLCGet(2)>>)
=============================================================================
