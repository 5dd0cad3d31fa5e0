------------------------------ MODULE QRLayout ------------------------------
(***************************************************************************)
(* Geometry of a symbol: which modules are function patterns, in which     *)
(* order the remaining modules carry the codeword bits, the eight data     *)
(* masks, and where the two copies of the format information live.         *)
(* Coordinates are <<row, column>>, zero based.                            *)
(***************************************************************************)
EXTENDS QRTables

Abs(a) == IF a < 0 THEN -a ELSE a

(* Finder patterns with separators and format strips, timing patterns,     *)
(* version information, alignment patterns, and the dark module.           *)
InFinderCorner(n, y, x) == \/ (y <= 8 /\ x <= 8)
                           \/ (y >= n - 8 /\ x <= 8)
                           \/ (y <= 8 /\ x >= n - 8)
InTiming(y, x) == y = 6 \/ x = 6
InVersionInfo(v, n, y, x) == /\ v >= 7
                             /\ \/ (y <= 5 /\ x >= n - 11 /\ x <= n - 9)
                                \/ (x <= 5 /\ y >= n - 11 /\ y <= n - 9)

(* Alignment patterns sit on every pair of centres except the three that   *)
(* would overlap a finder pattern.                                         *)
AlignPairs(v) ==
  LET a == AlignCentres(v)
      k == Len(a)
  IN { <<a[i], a[j]>> : <<i, j>> \in ((1 .. k) \X (1 .. k)) \ {<<1, 1>>, <<1, k>>, <<k, 1>>} }

InAlign(pairs, y, x) == \E p \in pairs : Abs(y - p[1]) <= 2 /\ Abs(x - p[2]) <= 2

IsFunction(v, n, pairs, y, x) ==
  \/ InFinderCorner(n, y, x)
  \/ InTiming(y, x)
  \/ InVersionInfo(v, n, y, x)
  \/ InAlign(pairs, y, x)

(* Column pairs from right to left, skipping the vertical timing column,   *)
(* alternately upwards and downwards, right module of the pair first.      *)
ColumnPairs(n) ==
  [i \in 1 .. (n - 7) \div 2 |-> n + 1 - 2 * i] \o <<5, 3, 1>>

ZigZag(v) ==
  LET n == SizeOf(v)
      al == TLCEval(AlignPairs(v))
      cols == TLCEval(ColumnPairs(n))
      (* alignment pairs near a given row, to keep the test cheap *)
      near == TLCEval([y \in 0 .. n - 1 |-> { p \in al : Abs(y - p[1]) <= 2 }])
      Cell(k) == LET i == (k - 1) \div (2 * n)
                     r == ((k - 1) % (2 * n)) \div 2
                     h == (k - 1) % 2
                 IN << IF i % 2 = 0 THEN n - 1 - r ELSE r, cols[i + 1] - h >>
      IsData(c) == ~IsFunction(v, n, near[c[1]], c[1], c[2])
  IN SelectSeq([k \in 1 .. n * (n - 1) |-> Cell(k)], IsData)

MaskBit(m, y, x) ==
  CASE m = 0 -> (y + x) % 2 = 0
    [] m = 1 -> y % 2 = 0
    [] m = 2 -> x % 3 = 0
    [] m = 3 -> (y + x) % 3 = 0
    [] m = 4 -> (y \div 2 + x \div 3) % 2 = 0
    [] m = 5 -> ((y * x) % 2) + ((y * x) % 3) = 0
    [] m = 6 -> (((y * x) % 2) + ((y * x) % 3)) % 2 = 0
    [] m = 7 -> (((y + x) % 2) + ((y * x) % 3)) % 2 = 0

(* Modules of the two copies of the format information, least significant  *)
(* bit first.                                                              *)
FormatCopy1 == << <<0, 8>>, <<1, 8>>, <<2, 8>>, <<3, 8>>, <<4, 8>>, <<5, 8>>, <<7, 8>>, <<8, 8>>,
                  <<8, 7>>, <<8, 5>>, <<8, 4>>, <<8, 3>>, <<8, 2>>, <<8, 1>>, <<8, 0>> >>
FormatCopy2(n) == [k \in 1 .. 15 |-> IF k <= 8 THEN <<8, n - k>> ELSE <<n - 16 + k, 8>>]

=============================================================================
