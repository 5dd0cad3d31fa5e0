------------------------------ MODULE TFormat -------------------------------
(* Trace validation of format reading: {id, n, w1, w2, v, r} per line,     *)
(* r = data bits read, -1 = unreadable.                                    *)
EXTENDS FormatReader, IOUtils, Json

Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
TrReads == Len(Tr)
TrW1(i) == Tr[i].w1
TrW2(i) == Tr[i].w2

Next == \/ ReadFirst \/ ReadSecond
        \/ /\ fph = "done" /\ Tr[rd].r = got
           /\ got >= 0 => 4 * Tr[rd].v + 17 = Tr[rd].n
           /\ Report
Spec == InitFmt /\ [][Next]_fvars

Note == IF rd > TLCGet(1) THEN TLCSet(1, rd) ELSE TRUE
ASSUME TLCSet(1, 0)
Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id,
               [expected |-> LET a == Closest(Tr[TLCGet(1)].w1) IN IF a >= 0 THEN a ELSE Closest(Tr[TLCGet(1)].w2),
                got |-> Tr[TLCGet(1)].r]>>)
=============================================================================
