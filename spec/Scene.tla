------------------------------- MODULE Scene --------------------------------
(***************************************************************************)
(* Pictures of symbols at known places, and what a search must report.     *)
(*                                                                         *)
(* A symbol s of side s.n with drawn module matrix s.mat shows at pixel    *)
(* (x, y) the module (u, v), where with X = 2x+1, Y = 2y+1 and             *)
(* s.map = <<a, b, c, d, e, f, g, h, k>>                                   *)
(*   u = floor((aX + bY + c) / D), v = floor((dX + eY + f) / D),           *)
(*   D = gX + hY + k.                                                      *)
(* Quarter turns, integer scales, rotations, shears and tilts are all of   *)
(* this form.  (A mirrored symbol has a transposed matrix.)                *)
(***************************************************************************)
EXTENDS Finder

Den(s, x2, y2) == s.map[7] * x2 + s.map[8] * y2 + s.map[9]
NumU(s, x2, y2) == s.map[1] * x2 + s.map[2] * y2 + s.map[3]
NumV(s, x2, y2) == s.map[4] * x2 + s.map[5] * y2 + s.map[6]
(* The module of symbol s at a pixel as v*n+u+1, or 0 outside of it.       *)
ModuleAt(s, x, y) ==
  LET x2 == 2 * x + 1
      y2 == 2 * y + 1
      d == Den(s, x2, y2)
  IN IF d <= 0 THEN 0
     ELSE LET u == NumU(s, x2, y2) \div d
              v == NumV(s, x2, y2) \div d
          IN IF u < 0 \/ v < 0 \/ u >= s.n \/ v >= s.n THEN 0 ELSE v * s.n + u + 1
Ink(sc, x, y) == \E k \in 1 .. Len(sc) : LET m == ModuleAt(sc[k], x, y) IN m > 0 /\ sc[k].mat[m] = 1

(* The picture shows exactly the symbols.                                  *)
Painted(p, sc) ==
  \A y \in 0 .. p.h - 1 :
    LET a == p.rs[y + 1]
        z == p.rs[y + 2] - 1
    IN /\ \A i \in a .. z : \A x \in First(p, i) .. Last(p, i) : Ink(sc, x, y)
       /\ \A i \in a .. z + 1 :
            \A x \in (IF i = a THEN 0 ELSE Last(p, i - 1) + 1) .. (IF i = z + 1 THEN p.w - 1 ELSE First(p, i) - 1) :
              ~Ink(sc, x, y)

(* Or the symbols, each in its own quiet zone of q modules, amid anything: *)
(* within symbols and zones the picture shows exactly the symbols.         *)
InZone(s, x, y, q) ==
  LET x2 == 2 * x + 1
      y2 == 2 * y + 1
      d == Den(s, x2, y2)
      In(a) == 0 - q * d <= a /\ a < (s.n + q) * d
  IN d > 0 /\ In(NumU(s, x2, y2)) /\ In(NumV(s, x2, y2))
PaintedAmid(p, sc, q) ==
  \A y \in 0 .. p.h - 1 :
    LET a == p.rs[y + 1]
        z == p.rs[y + 2] - 1
    IN /\ \A i \in a .. z : \A x \in First(p, i) .. Last(p, i) :
            Ink(sc, x, y) \/ \A k \in 1 .. Len(sc) : ~InZone(sc[k], x, y, q)
       /\ \A i \in a .. z + 1 :
            \A x \in (IF i = a THEN 0 ELSE Last(p, i - 1) + 1) .. (IF i = z + 1 THEN p.w - 1 ELSE First(p, i) - 1) :
              ~Ink(sc, x, y)
Shows(p, sc, q) == IF q = 0 THEN Painted(p, sc) ELSE PaintedAmid(p, sc, q)

(* A claimed ring is the ring of a finder pattern of a symbol: its root    *)
(* run starts on a module of the pattern's border.                         *)
OnRing(u, v) == u \in 0 .. 6 /\ v \in 0 .. 6 /\ (u \in {0, 6} \/ v \in {0, 6})
RingOf(p, sc, r) ==
  LET f(k) == ModuleAt(sc[k], First(p, r), RowOf(p, r))
  IN { k \in 1 .. Len(sc) : f(k) > 0 /\
         LET u == (f(k) - 1) % sc[k].n
             v == (f(k) - 1) \div sc[k].n
             n == sc[k].n
         IN OnRing(u, v) \/ OnRing(u - (n - 7), v) \/ OnRing(u, v - (n - 7)) }
(* Nothing in the picture looks like a finder pattern except the three of  *)
(* each symbol.                                                            *)
OnlyItsFinders(p, sc, cl) ==
  /\ \A r \in cl : RingOf(p, sc, r) # {}
  /\ \A k \in 1 .. Len(sc) : LET own == { r \in cl : k \in RingOf(p, sc, r) }
                             IN \E a, b, c \in own : own = {a, b, c} /\ a # b /\ b # c /\ a # c

(* -- several symbols: no three finder patterns of different symbols lie   *)
(* like those of one symbol (a right angle within about 14 degrees, sides  *)
(* equal within 30 percent).  For upright symbols: centres, doubled.       *)
Abs(a) == IF a < 0 THEN 0 - a ELSE a
Upright(s) == s.map[7] = 0 /\ s.map[8] = 0 /\ Abs(s.map[1]) + Abs(s.map[2]) = 1
(* pixel (doubled) whose module coordinate is (p/2, q/2)                   *)
CentreX(s, p, q) == IF s.map[1] # 0 THEN s.map[1] * ((p * s.map[9]) \div 2 - s.map[3])
                    ELSE s.map[4] * ((q * s.map[9]) \div 2 - s.map[6])
CentreY(s, p, q) == IF s.map[5] # 0 THEN s.map[5] * ((q * s.map[9]) \div 2 - s.map[6])
                    ELSE s.map[2] * ((p * s.map[9]) \div 2 - s.map[3])
Centres(sc) ==
  LET at0 == { <<7, 7>> }
      pts(n) == { <<7, 7>>, <<2 * n - 7, 7>>, <<7, 2 * n - 7>> }
  IN UNION { { <<k, CentreX(sc[k], q[1], q[2]), CentreY(sc[k], q[1], q[2])>> : q \in pts(sc[k].n) } : k \in 1 .. Len(sc) }
Squarish(a, b, c) ==
  LET u == Abs(b[2] - a[2])
      v == Abs(b[3] - a[3])
      m == Abs(c[2] - a[2])
      n == Abs(c[3] - a[3])
  IN /\ 4 * u < v /\ 4 * n < m
     /\ (IF v < m THEN 10 * v > 7 * m ELSE 10 * m > 7 * v)
Unambiguous(sc) ==
  Len(sc) > 1 =>
    /\ \A k \in 1 .. Len(sc) : Upright(sc[k])
    /\ LET cs == Centres(sc)
       IN \A a \in cs : \A b \in cs : \A c \in cs : ~(b[1] = a[1] /\ c[1] = a[1]) => ~Squarish(a, b, c)

(* -- the report ---------------------------------------------------------- *)
(* Corner (cu, cv) (in modules) is reported within two modules.            *)
NearCorner(s, x, y, cu, cv) ==
  LET x2 == 2 * x + 1
      y2 == 2 * y + 1
      d == Den(s, x2, y2)
  IN /\ d > 0
     /\ Abs(NumU(s, x2, y2) - cu * d) <= 2 * d
     /\ Abs(NumV(s, x2, y2) - cv * d) <= 2 * d
BoundsOK(s, b) == /\ NearCorner(s, b[1], b[2], 0, 0) /\ NearCorner(s, b[3], b[4], s.n, 0)
                  /\ NearCorner(s, b[5], b[6], s.n, s.n) /\ NearCorner(s, b[7], b[8], 0, s.n)
Reports(s, g) == g.n = s.n /\ g.bits = s.mat /\ g.res = "Ok" /\ g.out = s.msg /\ BoundsOK(s, g.b)
AllFound(sc, grids) ==
  /\ Len(grids) = Len(sc)
  /\ \A k \in 1 .. Len(sc) : \E j \in 1 .. Len(grids) : Reports(sc[k], grids[j])
=============================================================================
