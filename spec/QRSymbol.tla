------------------------------ MODULE QRSymbol ------------------------------
(***************************************************************************)
(* From modules to codewords and back: format information as read from a   *)
(* grid, unmasked codeword sequence, blocks.  A grid is a flat sequence of *)
(* 0/1 in row order.                                                       *)
(***************************************************************************)
EXTENDS QRLayout, QRFormat, QRSegments, ReedSolomon


At(g, n, y, x) == g[y * n + x + 1]
(* The mirrored reading exchanges rows and columns.                        *)
Look(g, n, mir, y, x) == IF mir THEN At(g, n, x, y) ELSE At(g, n, y, x)

WordAt(g, n, mir, cells) ==
  FoldRight(LAMBDA c, acc : 2 * acc + Look(g, n, mir, c[1], c[2]), cells, 0)

(* First copy unless it is unreadable, else the second; -1 if both are.    *)
ReadFormat(g, n, mir) ==
  LET a == ReadFormatWord(WordAt(g, n, mir, FormatCopy1))
  IN IF a >= 0 THEN a ELSE ReadFormatWord(WordAt(g, n, mir, FormatCopy2(n)))

(* Module values in codeword bit order, as drawn (mask not removed).       *)
RawBits(g, n, mir, zz) == [k \in 1 .. Len(zz) |-> Look(g, n, mir, zz[k][1], zz[k][2])]

(* The transmitted codewords.                                              *)
Codewords(g, v, m, mir, zz) ==
  LET n == SizeOf(v)
      B(k) == LET c == zz[k] IN
              IF MaskBit(m, c[1], c[2]) THEN 1 - Look(g, n, mir, c[1], c[2])
              ELSE Look(g, n, mir, c[1], c[2])
  IN [i \in 1 .. TotalCodewords(v) |->
        B(8*i-7) * 128 + B(8*i-6) * 64 + B(8*i-5) * 32 + B(8*i-4) * 16
        + B(8*i-3) * 8 + B(8*i-2) * 4 + B(8*i-1) * 2 + B(8*i)]

Block(cws, v, e, b) ==
  [c \in 1 .. DataLen(v, e, b) + EccPerBlock(v, e) |-> cws[StreamPos(v, e, b, c) + 1]]

CorrectBlock(cws, v, e, b) == Correct(TLCEval(Block(cws, v, e, b)), EccPerBlock(v, e))
=============================================================================
