----------------------------- MODULE QREncoder ------------------------------
(***************************************************************************)
(* Symbols as the standard constructs them: the inverse of what the        *)
(* decoder specifies, written independently of it.  A segment is           *)
(* <<mode, data>> with mode 1 numeric, 2 alphanumeric, 4 byte, 8 kanji     *)
(* (data: the bytes of the text, Shift-JIS pairs for kanji) or 7 ECI       *)
(* (data: <<designator>>).                                                 *)
(***************************************************************************)
EXTENDS QRSymbol

BitsOf(x, w) == [k \in 1 .. w |-> (x \div (2 ^ (w - k))) % 2]
Concat(ss) == FlattenSeq(ss)

AlnumIndex == TLCEval([a \in { AlnumSet[i] : i \in 1 .. 45 } |-> (CHOOSE i \in 1 .. 45 : AlnumSet[i] = a) - 1])
KanjiCode(hi, lo) ==
  LET w == hi * 256 + lo
      d == IF w <= 40956 THEN w - 33088 ELSE w - 49472
  IN (d \div 256) * 192 + (d % 256)

NumericBits(t) ==
  Concat([g \in 1 .. (Len(t) + 2) \div 3 |->
    LET a == 3 * g - 2
        n == MinOf(3, Len(t) - a + 1)
        D(k) == t[a + k] - 48
    IN CASE n = 3 -> BitsOf(100 * D(0) + 10 * D(1) + D(2), 10)
         [] n = 2 -> BitsOf(10 * D(0) + D(1), 7)
         [] OTHER -> BitsOf(D(0), 4)])
AlnumBits(t) ==
  Concat([g \in 1 .. (Len(t) + 1) \div 2 |->
    IF 2 * g <= Len(t) THEN BitsOf(45 * AlnumIndex[t[2 * g - 1]] + AlnumIndex[t[2 * g]], 11)
    ELSE BitsOf(AlnumIndex[t[2 * g - 1]], 6)])
ByteBits(t) == Concat([i \in 1 .. Len(t) |-> BitsOf(t[i], 8)])
KanjiBits(t) == Concat([i \in 1 .. Len(t) \div 2 |-> BitsOf(KanjiCode(t[2 * i - 1], t[2 * i]), 13)])
EciBits(d) == IF d < 128 THEN BitsOf(d, 8) ELSE IF d < 16384 THEN BitsOf(32768 + d, 16) ELSE BitsOf(192 + d \div 65536, 8) \o BitsOf(d % 65536, 16)

SegmentBits(s, v) ==
  LET m == s[1]
      t == s[2]
  IN BitsOf(m, 4) \o
     (CASE m = 1 -> BitsOf(Len(t), CountBits(1, v)) \o NumericBits(t)
        [] m = 2 -> BitsOf(Len(t), CountBits(2, v)) \o AlnumBits(t)
        [] m = 4 -> BitsOf(Len(t), CountBits(4, v)) \o ByteBits(t)
        [] m = 8 -> BitsOf(Len(t) \div 2, CountBits(8, v)) \o KanjiBits(t)
        [] m = 7 -> EciBits(t[1]))
StreamOf(segs, v) == Concat([i \in 1 .. Len(segs) |-> SegmentBits(segs[i], v)])
TextOf(segs) == Concat([i \in 1 .. Len(segs) |-> IF segs[i][1] = 7 THEN << >> ELSE segs[i][2]])

(* Terminator (as much as fits), fill to a byte, pad bytes.                *)
DataBytes(segs, v, e) ==
  LET cap == 8 * DataCodewords(v, e)
      s == TLCEval(StreamOf(segs, v))
      term == MinOf(4, cap - Len(s))
      fill == (8 - ((Len(s) + term) % 8)) % 8
      bits == TLCEval(s \o [k \in 1 .. term + fill |-> 0])
      used == Len(bits) \div 8
  IN [i \in 1 .. DataCodewords(v, e) |->
        IF i <= used THEN FoldLeft(LAMBDA a, k : 2 * a + bits[8 * (i - 1) + k], 0, <<1, 2, 3, 4, 5, 6, 7, 8>>)
        ELSE IF (i - used) % 2 = 1 THEN 236 ELSE 17]
Fits(segs, v, e) == Len(StreamOf(segs, v)) <= 8 * DataCodewords(v, e)

(* Blocks with parity, and the transmitted order: codeword by codeword     *)
(* from each block in turn, data first.                                    *)
BlockStart(v, e, b) == (b - 1) * ShortData(v, e) + (IF b > NumShort(v, e) THEN b - 1 - NumShort(v, e) ELSE 0)
BlocksOf(data, v, e) ==
  LET g == TLCEval(Generator(EccPerBlock(v, e)))
  IN [b \in 1 .. NumBlocks(v, e) |->
        LET d == SubSeq(data, BlockStart(v, e, b) + 1, BlockStart(v, e, b) + DataLen(v, e, b))
        IN d \o ParityG(d, EccPerBlock(v, e), g)]
Interleaved(blocks, v, e) ==
  LET nb == NumBlocks(v, e)
      sd == ShortData(v, e)
      np == EccPerBlock(v, e)
  IN Concat([c \in 1 .. sd |-> [b \in 1 .. nb |-> blocks[b][c]]])
     \o [k \in 1 .. NumLong(v, e) |-> blocks[NumShort(v, e) + k][sd + 1]]
     \o Concat([c \in 1 .. np |-> [b \in 1 .. nb |-> blocks[b][DataLen(v, e, b) + c]]])

(* Function patterns.  Version information: (18,6) Golay code.             *)
VersionWord(v) ==
  v * 4096 + FoldLeft(LAMBDA r, k : IF (r \div (2 ^ k)) % 2 = 1 THEN r ^^ (7973 * 2 ^ (k - 12)) ELSE r,
                      v * 4096, <<17, 16, 15, 14, 13, 12>>)
MaxOf(a, b) == IF a >= b THEN a ELSE b
(* Finder pattern with separator around centre (cy, cx): rings by distance. *)
FinderInk(y, x, cy, cx) == MaxOf(Abs(y - cy), Abs(x - cx)) \notin {2, 4}
FunctionInk(v, n, al, f, y, x) ==
  IF y <= 7 /\ x <= 7 THEN FinderInk(y, x, 3, 3)
  ELSE IF y <= 7 /\ x >= n - 8 THEN FinderInk(y, x, 3, n - 4)
  ELSE IF y >= n - 8 /\ x <= 7 THEN FinderInk(y, x, n - 4, 3)
  ELSE IF y = n - 8 /\ x = 8 THEN TRUE
  ELSE IF \E k \in 1 .. 15 : FormatCopy1[k] = <<y, x>>
       THEN LET k == CHOOSE k \in 1 .. 15 : FormatCopy1[k] = <<y, x>> IN (f \div (2 ^ (k - 1))) % 2 = 1
  ELSE IF \E k \in 1 .. 15 : FormatCopy2(n)[k] = <<y, x>>
       THEN LET k == CHOOSE k \in 1 .. 15 : FormatCopy2(n)[k] = <<y, x>> IN (f \div (2 ^ (k - 1))) % 2 = 1
  ELSE IF v >= 7 /\ y <= 5 /\ x >= n - 11 THEN (VersionWord(v) \div (2 ^ (3 * y + x - (n - 11)))) % 2 = 1
  ELSE IF v >= 7 /\ x <= 5 /\ y >= n - 11 THEN (VersionWord(v) \div (2 ^ (3 * x + y - (n - 11)))) % 2 = 1
  ELSE IF InAlign(al, y, x)
       THEN LET p == CHOOSE p \in al : Abs(y - p[1]) <= 2 /\ Abs(x - p[2]) <= 2
            IN MaxOf(Abs(y - p[1]), Abs(x - p[2])) # 1
  ELSE (y + x) % 2 = 0     \* timing

(* The drawn matrix: function modules, and in codeword order the masked    *)
(* bits of the transmitted codewords followed by remainder bits.           *)
Draw(cws, v, e, m, zz) ==
  LET n == SizeOf(v)
      al == TLCEval(AlignPairs(v))
      f == FormatWord(e, m)
      nb == 8 * Len(cws)
      Bit(k) == IF k > nb THEN 0 ELSE (cws[(k - 1) \div 8 + 1] \div (2 ^ (7 - ((k - 1) % 8)))) % 2
      dataCells == TLCEval([k \in 1 .. Len(zz) |->
                     << zz[k][1] * n + zz[k][2], IF MaskBit(m, zz[k][1], zz[k][2]) THEN 1 - Bit(k) ELSE Bit(k) >>])
      near == TLCEval([y \in 0 .. n - 1 |-> { p \in al : Abs(y - p[1]) <= 2 }])
      funCells == TLCEval(SelectSeq([p \in 1 .. n * n |-> << p - 1, 0 >>],
                    LAMBDA c : IsFunction(v, n, near[c[1] \div n], c[1] \div n, c[1] % n)))
      ink == TLCEval([i \in 1 .. Len(funCells) |->
               << funCells[i][1], IF FunctionInk(v, n, near[funCells[i][1] \div n], f, funCells[i][1] \div n, funCells[i][1] % n) THEN 1 ELSE 0 >>])
      all == TLCEval(SortSeq(dataCells \o ink, LAMBDA a, b : a[1] < b[1]))
  IN [p \in 1 .. n * n |-> all[p][2]]

Encode(segs, v, e, m, zz) == Draw(Interleaved(BlocksOf(DataBytes(segs, v, e), v, e), v, e), v, e, m, zz)
=============================================================================
