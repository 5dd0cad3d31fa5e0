--------------------------------- MODULE GF ---------------------------------
(***************************************************************************)
(* A binary extension field GF(2^M) with a primitive polynomial, as        *)
(* exponent / logarithm tables.  Instantiated with GF(256) for the         *)
(* codewords, GF(16) for the format information, and small fields for      *)
(* exhaustive model checking of the decoder.                               *)
(***************************************************************************)
EXTENDS Naturals, Sequences, SequencesExt, Bitwise, TLC

CONSTANTS Order,   \* number of elements, a power of two
          Prim     \* the primitive polynomial, including the top term

N1 == Order - 1    \* order of the multiplicative group

(* alpha^i for i in 0 .. N1-1, stored at index i+1 *)
ExpSeq ==
  TLCEval(FoldLeft(LAMBDA acc, i :
            LET last == acc[Len(acc)]
                d == 2 * last
            IN Append(acc, IF d >= Order THEN d ^^ Prim ELSE d),
          <<1>>, [i \in 1 .. N1 - 1 |-> i]))

LogFn == TLCEval([a \in 1 .. N1 |-> (CHOOSE i \in 1 .. N1 : ExpSeq[i] = a) - 1])

Exp(i) == ExpSeq[(i % N1) + 1]
Add(a, b) == a ^^ b
Mul(a, b) == IF a = 0 \/ b = 0 THEN 0 ELSE ExpSeq[((LogFn[a] + LogFn[b]) % N1) + 1]
Inv(a) == ExpSeq[((N1 - LogFn[a]) % N1) + 1]
Div(a, b) == Mul(a, Inv(b))
(* a * alpha^i *)
MulExp(a, i) == IF a = 0 THEN 0 ELSE ExpSeq[((LogFn[a] + i) % N1) + 1]

(* The same as a table: MulRow[i + 1][a + 1] = a * alpha^i.                 *)
MulRow == TLCEval([i \in 1 .. N1 |-> [a \in 1 .. Order |-> MulExp(a - 1, i - 1)]])

(* Value of a polynomial, given as a sequence of coefficients with the     *)
(* highest power first, at alpha^i (Horner).                               *)
EvalHi(p, i) == LET row == MulRow[(i % N1) + 1]
                IN FoldLeft(LAMBDA acc, c : row[acc + 1] ^^ c, 0, p)

(* The same with the constant term first.                                  *)
EvalLo(p, i) == LET row == MulRow[(i % N1) + 1]
                IN FoldRight(LAMBDA c, acc : row[acc + 1] ^^ c, p, 0)
=============================================================================
