----------------------------- MODULE MC_Layout ------------------------------
(***************************************************************************)
(* All versions: the codeword order visits every module that is not part   *)
(* of a function pattern exactly once, their number is the capacity of the *)
(* version, both copies of the format information lie in function modules, *)
(* and the block tables account for every codeword.                        *)
(***************************************************************************)
EXTENDS QRLayout, FiniteSets
VARIABLE v
Init == v \in Versions
Next == UNCHANGED v
Cells == LET n == SizeOf(v)
             al == TLCEval(AlignPairs(v))
         IN { q \in (0 .. n - 1) \X (0 .. n - 1) : ~IsFunction(v, n, al, q[1], q[2]) }
EachOnce == LET z == ZigZag(v)
                s == { z[k] : k \in 1 .. Len(z) }
            IN Len(z) = RawModules(v) /\ Cardinality(s) = Len(z) /\ s = Cells
FormatApart == LET n == SizeOf(v)
                   a == { FormatCopy1[k] : k \in 1 .. 15 }
                   b == { FormatCopy2(n)[k] : k \in 1 .. 15 }
               IN /\ Cardinality(a) = 15 /\ Cardinality(b) = 15 /\ a \cap b = {}
                  /\ a \cap Cells = {} /\ b \cap Cells = {}
                  /\ <<n - 8, 8>> \notin a \cup b \cup Cells
BlocksAdd == \A e \in EccLevels :
  FoldLeft(LAMBDA acc, k : acc + DataLen(v, e, k) + EccPerBlock(v, e), 0, [k \in 1 .. NumBlocks(v, e) |-> k]) = TotalCodewords(v)
ASSUME TablesOK
=============================================================================
