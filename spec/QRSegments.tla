----------------------------- MODULE QRSegments -----------------------------
(***************************************************************************)
(* The data bit stream: a sequence of segments (mode indicator, character  *)
(* count, characters), ended by a terminator or by running out of bits.    *)
(* `Segment` is one parser step; the decoder machine iterates it.          *)
(*                                                                         *)
(* Where the standard and the library leave a choice the step says so      *)
(* instead of fixing one answer:                                           *)
(*   lo / hi  output that must / may have been delivered by this step      *)
(*   loose    the stream is ill-formed in a way nothing specifies          *)
(*            (e.g. a three digit group above 999): only totality counts   *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, SequencesExt, TLC

(* The stream is held as bytes; value of the n <= 16 bits after the first p. *)
StreamBits(d) == 8 * Len(d)
BitsVal(d, p, n) ==
  LET a == p \div 8
      B(k) == IF k <= Len(d) THEN d[k] ELSE 0
      w == B(a + 1) * 65536 + B(a + 2) * 256 + B(a + 3)
  IN (w \div (2 ^ (24 - (p % 8) - n))) % (2 ^ n)

Band(v) == IF v <= 9 THEN 1 ELSE IF v <= 26 THEN 2 ELSE 3
CountBits(mode, v) ==
  CASE mode = 1 -> <<10, 12, 14>>[Band(v)]
    [] mode = 2 -> <<9, 11, 13>>[Band(v)]
    [] mode = 4 -> <<8, 16, 16>>[Band(v)]
    [] mode = 8 -> <<8, 10, 12>>[Band(v)]

(* The 45 alphanumeric characters, as ASCII codes.                         *)
AlnumSet == <<48, 49, 50, 51, 52, 53, 54, 55, 56, 57,
              65, 66, 67, 68, 69, 70, 71, 72, 73, 74, 75, 76, 77, 78, 79, 80, 81, 82, 83, 84, 85,
              86, 87, 88, 89, 90, 32, 36, 37, 42, 43, 45, 46, 47, 58>>

MinOf(a, b) == IF a <= b THEN a ELSE b

(* Step results.                                                           *)
Done(p, out) == [st |-> "more", next |-> p, lo |-> out, hi |-> out, loose |-> FALSE]
Fail(e, hi) == [st |-> e, next |-> 0, lo |-> << >>, hi |-> hi, loose |-> FALSE]
Loose == [st |-> "more", next |-> 0, lo |-> << >>, hi |-> << >>, loose |-> TRUE]

NumericSeg(bits, p, n) ==
  LET avail == StreamBits(bits) - p
      G == n \div 3
      r == n % 3
      got == MinOf(G, avail \div 10)
      vals == TLCEval([g \in 1 .. got |-> BitsVal(bits, p + 10 * (g - 1), 10)])
      Dig(i) == LET w == vals[((i - 1) \div 3) + 1]
                    k == (i - 1) % 3
                IN 48 + (CASE k = 0 -> w \div 100 [] k = 1 -> (w \div 10) % 10 [] OTHER -> w % 10)
      head == TLCEval([i \in 1 .. 3 * got |-> Dig(i)])
      tailBits == CASE r = 0 -> 0 [] r = 1 -> 4 [] OTHER -> 7
      q == p + 10 * G
      t == BitsVal(bits, q, tailBits)
  IN IF \E g \in 1 .. got : vals[g] > 999 THEN Loose
     ELSE IF got < G \/ avail - 10 * G < tailBits THEN Fail("DataUnderflow", head)
     ELSE IF r = 0 THEN Done(q, head)
     ELSE IF r = 1 THEN IF t > 9 THEN Loose ELSE Done(q + 4, Append(head, 48 + t))
     ELSE IF t > 99 THEN Loose ELSE Done(q + 7, head \o <<48 + t \div 10, 48 + (t % 10)>>)

AlnumSeg(bits, p, n) ==
  LET avail == StreamBits(bits) - p
      G == n \div 2
      r == n % 2
      got == MinOf(G, avail \div 11)
      vals == TLCEval([g \in 1 .. got |-> BitsVal(bits, p + 11 * (g - 1), 11)])
      bad == \E g \in 1 .. got : vals[g] > 2024
      Chr(i) == LET w == vals[((i - 1) \div 2) + 1]
                IN AlnumSet[(IF i % 2 = 1 THEN w \div 45 ELSE w % 45) + 1]
      head == TLCEval([i \in 1 .. 2 * got |-> Chr(i)])
      q == p + 11 * G
      t == BitsVal(bits, q, 6)
  IN IF bad THEN Loose
     ELSE IF got < G \/ avail - 11 * G < 6 * r THEN Fail("DataUnderflow", head)
     ELSE IF r = 0 THEN Done(q, head)
     ELSE IF t > 44 THEN Loose ELSE Done(q + 6, Append(head, AlnumSet[t + 1]))

ByteSeg(bits, p, n) ==
  IF StreamBits(bits) - p < 8 * n
  THEN Fail("DataUnderflow", [i \in 1 .. (StreamBits(bits) - p) \div 8 |-> BitsVal(bits, p + 8 * (i - 1), 8)])
  ELSE Done(p + 8 * n, TLCEval([i \in 1 .. n |-> BitsVal(bits, p + 8 * (i - 1), 8)]))

(* Shift-JIS bytes of a 13 bit kanji code.                                 *)
KanjiWord(d) ==
  LET w == (d \div 192) * 256 + (d % 192)
  IN IF w + 33088 <= 40956 THEN w + 33088 ELSE w + 49472   \* 0x8140, 0x9FFC, 0xC140
KanjiSeg(bits, p, n) ==
  LET got == MinOf(n, (StreamBits(bits) - p) \div 13)
      ws == TLCEval([i \in 1 .. got |-> KanjiWord(BitsVal(bits, p + 13 * (i - 1), 13))])
      out == TLCEval([i \in 1 .. 2 * got |->
               IF i % 2 = 1 THEN ws[(i + 1) \div 2] \div 256 ELSE ws[i \div 2] % 256])
  IN IF got < n THEN Fail("DataUnderflow", out) ELSE Done(p + 13 * n, out)

(* ECI designators select a character set; the library skips them.         *)
EciSeg(bits, p) ==
  IF StreamBits(bits) - p < 8 THEN Fail("DataUnderflow", << >>)
  ELSE LET b == BitsVal(bits, p, 8)
           w == IF b < 128 THEN 8 ELSE IF b < 192 THEN 16 ELSE IF b < 224 THEN 24 ELSE 0
       IN IF w = 0 THEN Loose
          ELSE IF StreamBits(bits) - p < w THEN Fail("DataUnderflow", << >>)
          ELSE Done(p + w, << >>)

(* One step at bit position p; requires at least four bits.                *)
Segment(bits, v, p) ==
  LET mode == BitsVal(bits, p, 4)
      q == p + 4
  IN CASE mode = 0 -> [Done(q, << >>) EXCEPT !.st = "Ok"]
       [] mode = 7 -> EciSeg(bits, q)
       [] mode \in {1, 2, 4, 8} ->
            LET w == CountBits(mode, v)
                n == BitsVal(bits, q, w)
                c == q + w
            IN IF StreamBits(bits) - q < w THEN [Fail("ShortCount", << >>) EXCEPT !.hi = << >>]
               ELSE (CASE mode = 1 -> NumericSeg(bits, c, n)
                      [] mode = 2 -> AlnumSeg(bits, c, n)
                      [] mode = 4 -> ByteSeg(bits, c, n)
                      [] mode = 8 -> KanjiSeg(bits, c, n))
       [] OTHER -> Fail("UnknownDataType", << >>)

(* The whole stream.  `res` is a set: a count field cut off by the end of  *)
(* the data may be taken as an empty segment or as an underflow.           *)
ParseFrom(bits, v, p0) ==
  LET n == StreamBits(bits)
      init == [p |-> p0, lo |-> << >>, hi |-> << >>, res |-> {}, loose |-> FALSE]
      step(st, k) ==
        IF st.res # {} \/ st.loose THEN st
        ELSE IF n - st.p < 4 THEN [st EXCEPT !.res = {"Ok"}]
        ELSE LET s == TLCEval(Segment(bits, v, st.p)) IN
             IF s.loose THEN [st EXCEPT !.loose = TRUE]
             ELSE TLCEval([p |-> s.next, lo |-> st.lo \o s.lo, hi |-> st.lo \o s.hi, loose |-> FALSE,
                   res |-> CASE s.st = "more" -> {}
                             [] s.st = "ShortCount" -> {"Ok", "DataUnderflow"}
                             [] OTHER -> {s.st}])
  (* a segment takes at least 12 bits, except ECI; n steps always suffice *)
  IN FoldLeft(step, init, [k \in 1 .. (n \div 8) + 2 |-> k])
ParseStream(bits, v) == ParseFrom(bits, v, 0)

(***************************************************************************)
(* UTF-8 well-formedness (RFC 3629), for the String returning decoder.     *)
(***************************************************************************)
Utf8OK(s) ==
  LET Cont(i, lo, hi) == i <= Len(s) /\ s[i] >= lo /\ s[i] <= hi
      step(need, i) ==
        IF need # i THEN need                      \* inside a sequence, or failed (0)
        ELSE LET b == s[i] IN
          CASE b < 128 -> i + 1
            [] b >= 194 /\ b <= 223 -> IF Cont(i + 1, 128, 191) THEN i + 2 ELSE 0
            [] b = 224 -> IF Cont(i + 1, 160, 191) /\ Cont(i + 2, 128, 191) THEN i + 3 ELSE 0
            [] b \in {225, 226, 227, 228, 229, 230, 231, 232, 233, 234, 235, 236, 238, 239} ->
                 IF Cont(i + 1, 128, 191) /\ Cont(i + 2, 128, 191) THEN i + 3 ELSE 0
            [] b = 237 -> IF Cont(i + 1, 128, 159) /\ Cont(i + 2, 128, 191) THEN i + 3 ELSE 0
            [] b = 240 -> IF Cont(i + 1, 144, 191) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191)
                          THEN i + 4 ELSE 0
            [] b \in {241, 242, 243} ->
                 IF Cont(i + 1, 128, 191) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191)
                 THEN i + 4 ELSE 0
            [] b = 244 -> IF Cont(i + 1, 128, 143) /\ Cont(i + 2, 128, 191) /\ Cont(i + 3, 128, 191)
                          THEN i + 4 ELSE 0
            [] OTHER -> 0
  IN FoldLeft(step, 1, [i \in 1 .. Len(s) |-> i]) = Len(s) + 1
=============================================================================
