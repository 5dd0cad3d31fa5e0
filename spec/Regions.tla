------------------------------ MODULE Regions -------------------------------
(***************************************************************************)
(* Pictures and their black regions.                                       *)
(*                                                                         *)
(* A picture p is the list of its maximal horizontal black runs, row by    *)
(* row: run i is p.bl[3i-2 .. 3i] = row, first column, length; the runs of *)
(* row y (from 0) are p.rs[y+1] .. p.rs[y+2]-1.  Two runs of neighbouring  *)
(* rows touch when they share a column: regions are connected along edges, *)
(* not corners.                                                            *)
(*                                                                         *)
(* Regions come as a certificate which is checked here:                    *)
(*   lo, hi   the runs of the row above touched by i are lo[i] .. hi[i]    *)
(*   lab      the region of i, named by its root run                       *)
(*   par, dep a path from i to the root: i touches par[i], one step nearer *)
(*   prv, nxt the runs of a region as one chain; acc the area up to i      *)
(*   ar       the area of the region whose root is i                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC

NRuns(p) == Len(p.bl) \div 3
RowOf(p, i) == p.bl[3 * i - 2]
First(p, i) == p.bl[3 * i - 1]
Size(p, i) == p.bl[3 * i]
Last(p, i) == p.bl[3 * i - 1] + p.bl[3 * i] - 1

RunsOK(p) ==
  /\ Len(p.rs) = p.h + 1 /\ p.rs[1] = 1 /\ p.rs[p.h + 1] = NRuns(p) + 1
  /\ \A y \in 1 .. p.h :
       /\ p.rs[y] <= p.rs[y + 1]
       /\ \A i \in p.rs[y] .. p.rs[y + 1] - 1 :
            /\ RowOf(p, i) = y - 1 /\ First(p, i) >= 0 /\ Size(p, i) >= 1 /\ Last(p, i) < p.w
            /\ i > p.rs[y] => First(p, i) > Last(p, i - 1) + 1

TouchOK(p) ==
  \A y \in 1 .. p.h : \A i \in p.rs[y] .. p.rs[y + 1] - 1 :
    IF y = 1 THEN p.lo[i] > p.hi[i]
    ELSE LET a == p.rs[y - 1]
             z == p.rs[y] - 1
         IN /\ a <= p.lo[i] /\ p.hi[i] <= z /\ p.lo[i] <= p.hi[i] + 1
            /\ p.lo[i] = a \/ Last(p, p.lo[i] - 1) < First(p, i)
            /\ p.hi[i] = z \/ First(p, p.hi[i] + 1) > Last(p, i)
            /\ \A j \in p.lo[i] .. p.hi[i] : Last(p, j) >= First(p, i) /\ First(p, j) <= Last(p, i)

Touch(p, i, j) == (p.lo[i] <= j /\ j <= p.hi[i]) \/ (p.lo[j] <= i /\ i <= p.hi[j])

LabelsOK(p) ==
  \A i \in 1 .. NRuns(p) :
    /\ \A j \in p.lo[i] .. p.hi[i] : p.lab[j] = p.lab[i]
    /\ IF p.dep[i] = 0 THEN p.lab[i] = i
       ELSE p.dep[i] > 0 /\ Touch(p, i, p.par[i]) /\ p.dep[p.par[i]] = p.dep[i] - 1

AreasOK(p) ==
  \A i \in 1 .. NRuns(p) :
    /\ IF p.prv[i] = 0 THEN p.dep[i] = 0 /\ p.acc[i] = Size(p, i)
       ELSE p.prv[i] < i /\ p.nxt[p.prv[i]] = i /\ p.lab[p.prv[i]] = p.lab[i] /\ p.acc[i] = p.acc[p.prv[i]] + Size(p, i)
    /\ p.nxt[i] = 0 => p.ar[p.lab[i]] = p.acc[i]
    /\ p.nxt[i] # 0 => p.prv[p.nxt[i]] = i

PictureOK(p) == RunsOK(p) /\ TouchOK(p) /\ LabelsOK(p) /\ AreasOK(p)

Regs(p) == { i \in 1 .. NRuns(p) : p.dep[i] = 0 }
Area(p, r) == p.ar[r]
=============================================================================
