------------------------------ MODULE QRFormat ------------------------------
(***************************************************************************)
(* Format information: five data bits (ECC level, mask) protected by a     *)
(* (15,5) BCH code with minimum distance 7, XORed with a fixed pattern and *)
(* stored twice.  Reading is specified by distance, not by an algorithm:   *)
(* a received word means the unique code word within distance 3, if any.   *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, FiniteSets, Bitwise, TLC

FormatXor == 21522      \* 0x5412
BchGen == 1335          \* x^10+x^8+x^5+x^4+x^2+x+1

(* Remainder of d * x^10 modulo the generator.                             *)
BchRem(d) ==
  FoldLeft(LAMBDA r, k : IF (r \div (2 ^ k)) % 2 = 1 THEN r ^^ (BchGen * 2 ^ (k - 10)) ELSE r,
           d * 1024, <<14, 13, 12, 11, 10>>)
BchWord(d) == d * 1024 + BchRem(d)

(* All 32 words as they appear in a symbol, indexed by data + 1.           *)
FormatWords == TLCEval([k \in 1 .. 32 |-> BchWord(k - 1) ^^ FormatXor])
FormatWord(e, m) == FormatWords[8 * e + m + 1]

PopCount(w) == FoldLeft(LAMBDA a, k : a + ((w \div (2 ^ k)) % 2), 0, [k \in 1 .. 15 |-> k - 1])

(* Data of the unique format word within distance 3, or -1.                *)
ReadFormatWord(w) ==
  LET near == { k \in 1 .. 32 : PopCount(w ^^ FormatWords[k]) <= 3 }
  IN IF near = {} THEN 0 - 1 ELSE (CHOOSE k \in near : TRUE) - 1

EccOf(d) == d \div 8
MaskOf(d) == d % 8

FormatOK == /\ \A i, j \in 1 .. 32 : i # j => PopCount(FormatWords[i] ^^ FormatWords[j]) >= 7
            /\ Cardinality({ FormatWords[i] : i \in 1 .. 32 }) = 32
=============================================================================
