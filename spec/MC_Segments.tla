---------------------------- MODULE MC_Segments -----------------------------
(***************************************************************************)
(* All data streams of two bytes, and many of MaxBytes starting with the   *)
(* header of a short segment: parsing always ends with a      *)
(* result, never outputs more than the bits can carry, and output of a     *)
(* prefix of the stream is a prefix of the output.                         *)
(* All 13 bit kanji codes: the mapping to Shift-JIS is injective and its   *)
(* inverse is QREncoder's.                                                 *)
(***************************************************************************)
EXTENDS QREncoder
CONSTANT MaxBytes
VARIABLES s, ver
Headers == {16, 18, 20, 32, 33, 35, 40, 64, 65, 66, 67, 112, 113, 128, 129, 130, 0, 48, 80, 144, 240}
Init == ver \in {1, 9, 10, 26, 27, 40} /\ s \in { <<h>> : h \in 0 .. 255 }
Room == IF Len(s) < 2 THEN TRUE ELSE Len(s) < MaxBytes /\ s[1] \in Headers /\ s[2] % 8 \in {0, 1, 3, 7} /\ ver \in {1, 10, 40}
Next == /\ Room
        /\ \E a \in 0 .. 255 : s' = Append(s, a)
        /\ UNCHANGED ver
Parsed == ParseStream(s, ver)
(* A character takes at least 10/3 bits, after a header of at least 12.    *)
Ends == LET r == Parsed
        IN /\ r.loose \/ r.res # {}
           /\ r.res \subseteq {"Ok", "DataUnderflow", "UnknownDataType"}
           /\ 10 * Len(r.hi) <= 3 * 8 * Len(s)
           /\ IsPrefix(r.lo, r.hi)
Stable == Len(s) > 1 => LET r == Parsed
                            q == ParseStream(SubSeq(s, 1, Len(s) - 1), ver)
                        IN r.loose \/ q.loose \/ IsPrefix(q.lo, r.hi)
Valid(d) == LET w == KanjiWord(d) IN w % 256 \in 64 .. 252
ASSUME \A d \in 0 .. 8191 : Valid(d) => KanjiCode(KanjiWord(d) \div 256, KanjiWord(d) % 256) = d
=============================================================================
