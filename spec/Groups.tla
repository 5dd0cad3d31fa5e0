------------------------------- MODULE Groups -------------------------------
(***************************************************************************)
(* Putting finder patterns 1..N into groups of three.  Each pattern in     *)
(* turn, unless it is used already, is tried as the corner of a group with *)
(* pairs of others (`Sides(i)`, in an order of preference left open here)  *)
(* none of which is used; the first that turns out to be a symbol          *)
(* (`Viable`) becomes a group.                                             *)
(*                                                                         *)
(* No pattern is ever in two groups, and if what is viable is exactly the  *)
(* true symbols, every symbol is found, whatever the order of patterns     *)
(* and preferences.                                                        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS N
VARIABLES viable, \* set of <<corner, {side, side}>>
          at,     \* pattern being tried
          tried,  \* its pairs tried so far
          used, groups
grvars == <<viable, at, tried, used, groups>>
P == 1 .. N
Pairs(i) == { s \in SUBSET (P \ {i}) : Cardinality(s) = 2 }

InitGroups == at = 1 /\ tried = {} /\ used = {} /\ groups = {}
Skip == at <= N /\ at \in used /\ at' = at + 1 /\ tried' = {} /\ UNCHANGED <<viable, used, groups>>
Try(s) == /\ at <= N /\ at \notin used /\ s \in Pairs(at) \ tried
          /\ IF s \cap used = {} /\ <<at, s>> \in viable
             THEN /\ groups' = groups \cup {<<at, s>>} /\ used' = used \cup s \cup {at}
                  /\ at' = at + 1 /\ tried' = {}
             ELSE tried' = tried \cup {s} /\ UNCHANGED <<at, used, groups>>
          /\ UNCHANGED viable
Exhausted == at <= N /\ at \notin used /\ tried = Pairs(at) /\ at' = at + 1 /\ tried' = {} /\ UNCHANGED <<viable, used, groups>>
NextGroups == Skip \/ (\E s \in Pairs(at) : Try(s)) \/ Exhausted

Members(g) == g[2] \cup {g[1]}
Disjoint == \A g, h \in groups : g # h => Members(g) \cap Members(h) = {}
Few == 3 * Cardinality(groups) <= N
OnlyViable == groups \subseteq viable
Apart(v) == \A g, h \in v : g # h => Members(g) \cap Members(h) = {}
AllFound == at > N /\ Apart(viable) => groups = viable
=============================================================================
