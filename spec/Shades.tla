------------------------------- MODULE Shades -------------------------------
(***************************************************************************)
(* How the search remembers regions: every region looked at is painted     *)
(* with one of a limited number of shades, looked up through a cache of    *)
(* that size; when all are in use the least recently used one is painted   *)
(* black again and its shade reused.  The ring of a finder pattern is      *)
(* painted with a shade of its own; its cache entry goes stale and stays   *)
(* until it is the oldest.                                                 *)
(*                                                                         *)
(* Refines Finder: whatever was looked at before, a candidate is taken     *)
(* exactly when the specification takes it.                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS Region, NumShades
VARIABLES shade,   \* region -> -1 black, -2 finder pattern, or a shade from 0
          cache,   \* <<shade, region>>, least recently used first
          taken,   \* what the specification says is claimed
          agree    \* did both say the same so far
svars == <<shade, cache, taken, agree>>
Black == 0 - 1
Ring == 0 - 2

InitShades == /\ shade = [r \in Region |-> Black] /\ cache = << >> /\ taken = {} /\ agree = TRUE

IndexOf(c, s) == CHOOSE i \in 1 .. Len(c) : c[i][1] = s
Drop(c, i) == SubSeq(c, 1, i - 1) \o SubSeq(c, i + 1, Len(c))

(* Looking at region r: the shading and cache afterwards.                  *)
Lookup(sh, ca, r) ==
  IF sh[r] >= 0
  THEN LET i == IndexOf(ca, sh[r]) IN [sh |-> sh, ca |-> Append(Drop(ca, i), ca[i]), free |-> TRUE, hit |-> ca[i][2]]
  ELSE IF sh[r] = Ring THEN [sh |-> sh, ca |-> ca, free |-> FALSE, hit |-> r]
  ELSE IF Len(ca) < NumShades
       THEN [sh |-> [sh EXCEPT ![r] = Len(ca)], ca |-> Append(ca, <<Len(ca), r>>), free |-> TRUE, hit |-> r]
       ELSE LET old == ca[1]
                (* the fill only paints what still has the shade *)
                sh1 == IF sh[old[2]] = old[1] THEN [sh EXCEPT ![old[2]] = Black] ELSE sh
            IN [sh |-> [sh1 EXCEPT ![r] = old[1]], ca |-> Append(Tail(ca), <<old[1], r>>), free |-> TRUE, hit |-> r]

(* A candidate: left and right run, and the stone between.  `fits`: the    *)
(* areas are in proportion.                                                *)
Examine(left, right, stone, fits) ==
  LET a == Lookup(shade, cache, right)
      z == Lookup(a.sh, a.ca, stone)
      take == /\ z.sh[left] = z.sh[right]
              /\ a.free /\ z.free
              /\ a.sh[right] # z.sh[stone] /\ fits
      should == left = right /\ right # stone /\ right \notin taken /\ stone \notin taken /\ fits
  IN /\ shade' = IF take THEN [z.sh EXCEPT ![right] = Ring] ELSE z.sh
     /\ cache' = z.ca
     /\ taken' = IF should THEN taken \cup {right} ELSE taken
     /\ agree' = (agree /\ (take <=> should))

NextShades == \E l, r, s \in Region, f \in BOOLEAN : Examine(l, r, s, f)

(* No two regions share a shade in use, the cache knows every shade in     *)
(* use, claimed rings stay claimed, both searches agree.                   *)
NoSharing == \A p, q \in Region : shade[p] >= 0 /\ shade[p] = shade[q] => p = q
Known == \A p \in Region : shade[p] >= 0 => \E i \in 1 .. Len(cache) : cache[i] = <<shade[p], p>>
OneEach == \A i, j \in 1 .. Len(cache) : cache[i][1] = cache[j][1] => i = j
Bounded == Len(cache) <= NumShades
Kept == { r \in Region : shade[r] = Ring } = taken
Agree == agree
=============================================================================
