------------------------------ MODULE QRTables ------------------------------
(***************************************************************************)
(* Symbol parameters of ISO/IEC 18004 (QR Code), written from the standard *)
(* and not from the implementation: capacity and alignment positions come  *)
(* from the construction rules, block structure from the two tables of the *)
(* standard (error correction codewords per block, number of blocks).      *)
(* ECC levels are numbered as they appear in the format information:       *)
(*   0 = M, 1 = L, 2 = H, 3 = Q.                                           *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

Versions == 1 .. 40
EccLevels == 0 .. 3
Masks == 0 .. 7

SizeOf(v) == 17 + 4 * v

(* Version::from_size: the version whose symbol has this many modules.     *)
ValidSizes == { SizeOf(v) : v \in Versions }
VersionOfSize(n) == (n - 17) \div 4

NumAlign(v) == IF v = 1 THEN 0 ELSE v \div 7 + 2

(* Alignment pattern centre coordinates (Annex E).  Evenly spaced from the *)
(* far end with an even step; 6 is always the first; version 32 is the     *)
(* exception the standard itself makes.                                    *)
AlignCentres(v) ==
  IF v = 1 THEN << >>
  ELSE LET n    == NumAlign(v)
           step == IF v = 32 THEN 26
                   ELSE ((v * 4 + n * 2 + 1) \div (2 * n - 2)) * 2
       IN [k \in 1 .. n |-> IF k = 1 THEN 6 ELSE (v * 4 + 10) - (n - k) * step]

(* Modules that are not part of any function pattern.                      *)
RawModules(v) ==
  LET n == NumAlign(v)
      base == (16 * v + 128) * v + 64
  IN IF v = 1 THEN base
     ELSE base - ((25 * n - 10) * n - 55) - (IF v >= 7 THEN 36 ELSE 0)

TotalCodewords(v) == RawModules(v) \div 8
RemainderBits(v) == RawModules(v) % 8

EccPerBlock_L == << 7, 10, 15, 20, 26, 18, 20, 24, 30, 18, 20, 24, 26, 30, 22, 24, 28, 30, 28, 28,
                   28, 28, 30, 30, 26, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30 >>
EccPerBlock_M == << 10, 16, 26, 18, 24, 16, 18, 22, 22, 26, 30, 22, 22, 24, 24, 28, 28, 26, 26, 26,
                   26, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28, 28 >>
EccPerBlock_Q == << 13, 22, 18, 26, 18, 24, 18, 22, 20, 24, 28, 26, 24, 20, 30, 24, 28, 28, 26, 30,
                   28, 30, 30, 30, 30, 28, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30 >>
EccPerBlock_H == << 17, 28, 22, 16, 22, 28, 26, 26, 24, 28, 24, 28, 22, 24, 24, 30, 28, 28, 26, 28,
                   30, 24, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30, 30 >>

NumBlocks_L == << 1, 1, 1, 1, 1, 2, 2, 2, 2, 4, 4, 4, 4, 4, 6, 6, 6, 6, 7, 8,
                 8, 9, 9, 10, 12, 12, 12, 13, 14, 15, 16, 17, 18, 19, 19, 20, 21, 22, 24, 25 >>
NumBlocks_M == << 1, 1, 1, 2, 2, 4, 4, 4, 5, 5, 5, 8, 9, 9, 10, 10, 11, 13, 14, 16,
                 17, 17, 18, 20, 21, 23, 25, 26, 28, 29, 31, 33, 35, 37, 38, 40, 43, 45, 47, 49 >>
NumBlocks_Q == << 1, 1, 2, 2, 4, 4, 6, 6, 8, 8, 8, 10, 12, 16, 12, 17, 16, 18, 21, 20,
                 23, 23, 25, 27, 29, 34, 34, 35, 38, 40, 43, 45, 48, 51, 53, 56, 59, 62, 65, 68 >>
NumBlocks_H == << 1, 1, 2, 4, 4, 4, 5, 6, 8, 8, 11, 11, 16, 16, 18, 16, 19, 21, 25, 25,
                 25, 34, 30, 32, 35, 37, 40, 42, 45, 48, 51, 54, 57, 60, 63, 66, 70, 74, 77, 81 >>

EccPerBlock(v, e) == CASE e = 0 -> EccPerBlock_M[v] [] e = 1 -> EccPerBlock_L[v]
                       [] e = 2 -> EccPerBlock_H[v] [] OTHER -> EccPerBlock_Q[v]
NumBlocks(v, e) == CASE e = 0 -> NumBlocks_M[v] [] e = 1 -> NumBlocks_L[v]
                     [] e = 2 -> NumBlocks_H[v] [] OTHER -> NumBlocks_Q[v]

(* Data codewords of block b (1-based).  Short blocks come first.          *)
ShortData(v, e) == TotalCodewords(v) \div NumBlocks(v, e) - EccPerBlock(v, e)
NumLong(v, e) == TotalCodewords(v) % NumBlocks(v, e)
NumShort(v, e) == NumBlocks(v, e) - NumLong(v, e)
DataLen(v, e, b) == ShortData(v, e) + (IF b > NumShort(v, e) THEN 1 ELSE 0)
DataCodewords(v, e) == TotalCodewords(v) - NumBlocks(v, e) * EccPerBlock(v, e)
(* How many codewords of one block may be wrong and still be corrected.    *)
Capacity(v, e) == EccPerBlock(v, e) \div 2

(* Position (0-based) in the transmitted codeword sequence of codeword c   *)
(* (1-based, data first, then parity) of block b: column-wise interleaving *)
(* of the data parts, then of the parity parts.                            *)
StreamPos(v, e, b, c) ==
  LET nb == NumBlocks(v, e)
      sd == ShortData(v, e)
      d  == DataLen(v, e, b)
  IN IF c <= d
     THEN IF c <= sd THEN (c - 1) * nb + (b - 1)
          ELSE sd * nb + (b - 1 - NumShort(v, e))
     ELSE DataCodewords(v, e) + (c - d - 1) * nb + (b - 1)

(* Sanity of the tables themselves.                                        *)
TablesOK ==
  /\ \A v \in Versions :
       /\ v > 1 => /\ AlignCentres(v)[1] = 6
                   /\ AlignCentres(v)[NumAlign(v)] = SizeOf(v) - 7
                   /\ \A k \in 2 .. NumAlign(v) : AlignCentres(v)[k] % 2 = 0
                   /\ \A k \in 1 .. NumAlign(v) - 1 :
                        AlignCentres(v)[k + 1] - AlignCentres(v)[k] >= 12
       /\ RemainderBits(v) = (CASE v = 1 -> 0 [] v \in 2 .. 6 -> 7 [] v \in 7 .. 13 -> 0
                                [] v \in 14 .. 20 -> 3 [] v \in 21 .. 27 -> 4
                                [] v \in 28 .. 34 -> 3 [] OTHER -> 0)
       /\ \A e \in EccLevels :
            /\ DataLen(v, e, 1) > 0
            /\ NumShort(v, e) > 0
            (* the interleaving is a bijection *)
            /\ { StreamPos(v, e, b, c) : <<b, c>> \in
                   UNION { { <<b, c>> : c \in 1 .. DataLen(v, e, b) + EccPerBlock(v, e) }
                           : b \in 1 .. NumBlocks(v, e) } } = 0 .. TotalCodewords(v) - 1
=============================================================================
