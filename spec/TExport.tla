------------------------------ MODULE TExport -------------------------------
(***************************************************************************)
(* What others are shown of a picture or a grid: exported images, and      *)
(* single pixels asked for by point.                                       *)
(*                                                                         *)
(* A grid is exported with one pixel per module, black or white.  A        *)
(* picture is exported as it is: white, black, and marked regions in eight *)
(* colours by their shade; finder rings and alignment patterns differ.     *)
(* Asking for a point outside of the picture gives the nearest pixel.      *)
(***************************************************************************)
EXTENDS Integers, Sequences, IOUtils, Json, TLC

VARIABLE n
Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

(* colours as one number *)
WHITE == 16777215
BLACK == 0

GridOK(t) == /\ t.iw = t.n /\ t.ih = t.n /\ Len(t.im) = t.n * t.n /\ Len(t.bits) = t.n * t.n
             /\ \A i \in 1 .. t.n * t.n : t.im[i] = IF t.bits[i] = 1 THEN BLACK ELSE WHITE

(* how shades are shown: pairs of shade and colour *)
Shown(t) == { <<t.px[i], t.im[i]>> : i \in 1 .. t.w * t.h }
StateOK(t) ==
  /\ t.iw = t.w /\ t.ih = t.h /\ Len(t.im) = t.w * t.h /\ Len(t.px) = t.w * t.h
  /\ LET sh == TLCEval(Shown(t))
     IN \A a \in sh :
          /\ CASE a[1] = 0 -> a[2] = WHITE
               [] a[1] = 1 -> a[2] = BLACK
               [] OTHER -> a[2] \notin {WHITE, BLACK}
          /\ a[1] > 1 => \A b \in sh : b[1] > 1 => (a[1] % 8 = b[1] % 8 <=> a[2] = b[2])
Clamp(a, hi) == IF a < 0 THEN 0 ELSE IF a > hi THEN hi ELSE a
PointsOK(t) == \A k \in 1 .. Len(t.pts) :
  LET q == t.pts[k] IN q[3] = t.px[Clamp(q[2], t.h - 1) * t.w + Clamp(q[1], t.w - 1) + 1]

Holds(t) == IF t.kind = "grid" THEN GridOK(t) ELSE StateOK(t) /\ PointsOK(t)

Init == n = 1
Next == n <= Len(Tr) /\ Holds(Tr[n]) /\ n' = n + 1
Spec == Init /\ [][Next]_n
Note == IF n > TLCGet(1) THEN TLCSet(1, n) ELSE TRUE
ASSUME TLCSet(1, 0)
Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id, "export or point query differs from the state">>)
=============================================================================
