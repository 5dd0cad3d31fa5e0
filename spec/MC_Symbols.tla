----------------------------- MODULE MC_Symbols -----------------------------
(***************************************************************************)
(* Symbols drawn by QREncoder, damaged within capacity, run through the    *)
(* decoder machine: it must return exactly what was encoded.  The symbols  *)
(* are then written out, to be replayed against the real decoder.          *)
(***************************************************************************)
EXTENDS QREncoder, QRDecoder, IOUtils, Json

Seed == atoi(IOEnv.SEED)
Count == atoi(IOEnv.COUNT)
MaxVer == atoi(IOEnv.MAXVER)
Kind == IOEnv.KIND     \* clean, damage or mirror

(* A stream of pseudo random numbers below 53125 for case i.               *)
Rnd(i, len) ==
  FoldLeft(LAMBDA acc, k : Append(acc, (acc[Len(acc)] * 171 + 11213) % 53125),
           <<((Seed % 5003) * 7 + (i % 4001) * 131 + 17) % 53125>>, [k \in 1 .. len |-> k])

VerOf(i) == ((i * 7 + Seed) % MaxVer) + 1
(* Character j of segment s, from random number r.                         *)
CharOf(mode, r, j) ==
  CASE mode = 1 -> 48 + ((r \div 7) % 10)
    [] mode = 2 -> AlnumSet[((r \div 7) % 45) + 1]
    [] mode = 4 -> (r \div 5) % 256
ModeOf(r) == <<1, 2, 4, 8, 7, 4>>[((r \div 11) % 6) + 1]
PerChar(mode) == CASE mode = 1 -> 4 [] mode = 2 -> 6 [] mode = 4 -> 8 [] OTHER -> 13
SegsOf(i, v, e, rs) ==
  LET cap == 8 * DataCodewords(v, e)
      ns == IF cap < 200 THEN 1 ELSE ((rs[1] \div 13) % 4) + 1
      budget == cap \div ns - 28
      Seg(s) ==
        LET mode == IF budget < 30 THEN 4 ELSE ModeOf(rs[10 + s])
            limit == IF budget <= 0 THEN 0 ELSE budget \div PerChar(mode)
            len == IF rs[20 + s] % 3 = 0 THEN limit ELSE rs[20 + s] % (limit + 1)
            R(j) == rs[31 + ((j * 3 + s * 17 + rs[30 + s]) % 400)]
        IN IF mode = 7 THEN <<7, <<CASE rs[20 + s] % 3 = 0 -> rs[30 + s] % 128
                                     [] rs[20 + s] % 3 = 1 -> 128 + (rs[30 + s] % 16000)
                                     [] OTHER -> 16384 + rs[30 + s]>> >>
           ELSE IF mode = 8
                THEN <<8, FlattenSeq([j \in 1 .. MinOf(len, 255) |->
                        IF R(j) % 2 = 0 THEN <<129 + ((R(j) \div 3) % 30), 64 + ((R(j) \div 97) % 188)>>
                        ELSE <<224 + ((R(j) \div 3) % 11), 64 + ((R(j) \div 97) % 188)>>])>>
                ELSE <<mode, [j \in 1 .. MinOf(len, IF Band(v) = 1 THEN 255 ELSE 2047) |-> CharOf(mode, R(j), j)]>>
  IN [s \in 1 .. ns |-> Seg(s)]

(* Up to capacity codewords of every block changed.                        *)
Damaged(blocks, v, e, rs) ==
  [bi \in 1 .. Len(blocks) |->
     LET len == Len(blocks[bi])
         k == IF Kind = "clean" \/ rs[2] % 3 = 0 THEN 0 ELSE IF rs[2] % 3 = 1 THEN Capacity(v, e) ELSE rs[3 + (bi % 20)] % (Capacity(v, e) + 1)
         hit == { 1 + ((rs[40 + ((bi * 13 + j) % 390)] \div 3) % len) : j \in 1 .. k }
     IN [ci \in 1 .. len |-> IF ci \in hit THEN blocks[bi][ci] ^^ (1 + ((rs[40 + ((bi + 7 * ci) % 390)] \div 2) % 255)) ELSE blocks[bi][ci]]]
(* A few bits of one copy of the format information.                       *)
FlipFormat(g, v, rs) ==
  LET n == SizeOf(v)
      cells == IF rs[5] % 2 = 0 THEN FormatCopy1 ELSE FormatCopy2(n)
      k == IF Kind = "clean" THEN 0 ELSE IF rs[5] % 2 = 0 THEN rs[6] % 4 ELSE rs[6] % 16
      hit == { LET q == cells[1 + ((rs[60 + j] \div 3) % 15)] IN q[1] * n + q[2] + 1 : j \in 1 .. k }
  IN [p \in 1 .. Len(g) |-> IF p \in hit THEN 1 - g[p] ELSE g[p]]

ZZ == TLCEval([v \in { VerOf(i) : i \in 1 .. Count } |-> ZigZag(v)])
CaseRec(i) ==
  LET rs == TLCEval(Rnd(i, 440))
      v == VerOf(i)
      e == rs[7] % 4
      m == (rs[8] \div 4) % 8
      segs == TLCEval(SegsOf(i, v, e, rs))
      code == TLCEval(Interleaved(Damaged(BlocksOf(TLCEval(DataBytes(segs, v, e)), v, e), v, e, rs), v, e))
      g == TLCEval(FlipFormat(TLCEval(Draw(code, v, e, m, TLCGet(3)[v])), v, rs))
      mirrored == Kind = "mirror"
      n == SizeOf(v)
  IN [id |-> i, n |-> n, v |-> v, e |-> e, m |-> m, want |-> TextOf(segs), fits |-> Fits(segs, v, e),
      g |-> IF mirrored THEN [p \in 1 .. n * n |-> g[((p - 1) % n) * n + (p - 1) \div n + 1]] ELSE g]

Recs == TLCEval([i \in 1 .. Count |-> TLCEval(CaseRec(i))])
Syms == Count
SymGrid(i) == TLCGet(4)[i].g
SymSize(i) == TLCGet(4)[i].n
SymZig(v) == TLCGet(3)[v]
ASSUME TLCSet(3, ZZ)
ASSUME TLCSet(4, Recs)
ASSUME TLCSet(5, 0)
ASSUME ndJsonSerialize(IOEnv.OUT, Recs)

(* The decoder's last step, by a writer that takes everything.             *)
Next == \/ Start \/ ReadFmt \/ Extract \/ Fix \/ Parse
        \/ ph = "deliver" /\ sent < Len(msg) /\ Deliver(SubSeq(msg, sent + 1, Len(msg)), Len(msg) - sent)
        \/ ph = "deliver" /\ sent = Len(msg) /\ TLCSet(5, TLCGet(5) + 1) /\ Return
Spec == InitDec /\ [][Next]_vars

RoundTrip == ph = "deliver" =>
  LET t == TLCGet(4)[c]
  IN t.fits /\ ~loose /\ res = {"Ok"} /\ msg = t.want /\ Ver = t.v /\ Ecc = t.e /\ Mask = t.m
=============================================================================
