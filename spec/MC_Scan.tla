------------------------------ MODULE MC_Scan -------------------------------
(***************************************************************************)
(* The scanner, pixel by pixel, with a window of the last five runs,       *)
(* against the candidates of Finder: for every row of up to MaxW pixels it *)
(* stops exactly at the ends of candidates, and names their three runs.    *)
(***************************************************************************)
EXTENDS Finder, SequencesExt
CONSTANTS MaxW
VARIABLES px,     \* the row, 1 black
          i,      \* pixels consumed
          buf, last, len, changes, hits
mvars == <<px, i, buf, last, len, changes, hits, pc, step, cand, at, claimed>>
Unused == pc = 0 /\ step = "" /\ cand = << >> /\ at = 0 /\ claimed = {}
Keep == UNCHANGED <<pc, step, cand, at, claimed>>

Init == /\ Unused
        /\ px \in { <<a>> : a \in {0, 1} }
        /\ i = 0 - 1 /\ buf = <<0, 0, 0, 0, 0>> /\ last = px[1] /\ len = 1 /\ changes = 0 /\ hits = << >>
Extend == /\ i < 0 /\ Len(px) < MaxW
          /\ \E a \in {0, 1} : px' = Append(px, a)
          /\ UNCHANGED <<i, buf, last, len, changes, hits>> /\ Keep
Begin == i < 0 /\ i' = 1 /\ UNCHANGED <<px, buf, last, len, changes, hits>> /\ Keep

Fits(b) ==
  LET avg == (b[1] + b[2] + b[4] + b[5]) \div 4
      err == (avg * 3) \div 4
      chk == <<1, 1, 3, 1, 1>>
  IN \A k \in 1 .. 5 : b[k] >= chk[k] * avg - err /\ b[k] <= chk[k] * avg + err
(* The next pixel; after the last one a white pixel is imagined.           *)
Advance ==
  /\ i >= 1 /\ i <= Len(px)
  /\ LET col == IF i = Len(px) THEN 0 ELSE px[i + 1]
         b2 == <<buf[2], buf[3], buf[4], buf[5], len>>
     IN IF col = last
        THEN /\ len' = len + 1 /\ UNCHANGED <<buf, last, changes, hits>>
        ELSE /\ last' = col /\ buf' = b2 /\ len' = 1 /\ changes' = changes + 1
             /\ hits' = IF col = 0 /\ changes' >= 5 /\ Fits(b2)
                        THEN Append(hits, <<i - b2[1] - b2[2] - b2[3] - b2[4] - b2[5], i - b2[3] - b2[4] - b2[5], i - b2[5]>>)
                        ELSE hits
  /\ i' = i + 1 /\ UNCHANGED px /\ Keep
Next == Extend \/ Begin \/ Advance

(* The same row as a picture of Regions.                                   *)
Starts == SelectSeq([k \in 1 .. Len(px) |-> k], LAMBDA k : px[k] = 1 /\ (k = 1 \/ px[k - 1] = 0))
EndOf(k) == CHOOSE e \in k .. Len(px) : (\A q \in k .. e : px[q] = 1) /\ (e = Len(px) \/ px[e + 1] = 0)
RowPic == [bl |-> FlattenSeq([k \in 1 .. Len(Starts) |-> <<0, Starts[k] - 1, EndOf(Starts[k]) - Starts[k] + 1>>])]
Expected == LET p == RowPic
                c == SelectSeq([k \in 1 .. NRuns(p) |-> k], LAMBDA k : Candidate(p, k))
            IN [k \in 1 .. Len(c) |-> <<First(p, c[k] - 2), First(p, c[k] - 1), First(p, c[k])>>]
Same == i = Len(px) + 1 => hits = Expected
NoPic(k) == 0
NoPics == 0
=============================================================================
