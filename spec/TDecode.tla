------------------------------ MODULE TDecode -------------------------------
(***************************************************************************)
(* Trace validation: every line of the trace file is one recorded call of  *)
(* the real decoder (grid, writer events, result).  The trace is accepted  *)
(* if it is a behaviour of QRDecoder.                                      *)
(***************************************************************************)
EXTENDS QRDecoder, IOUtils, Json

Tr == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
Vers == { ((Tr[i].n - 17) \div 4) : i \in { i \in 1 .. Len(Tr) : Tr[i].n \in ValidSizes } }
ZZ == TLCEval([v \in Vers |-> ZigZag(v)])

TrCases == Len(Tr)
TrGrid(i) == Tr[i].g
TrSize(i) == Tr[i].n
TrZig(v) == TLCGet(3)[v]

VARIABLE k
allvars == <<c, ph, mir, err0, fmt, cws, b, dat, pos, msg, res, loose, sent, fault, k>>

Init == InitDec /\ k = 1

Ev == Tr[c].ev
Next ==
  \/ (Start \/ ReadFmt \/ Extract \/ Fix \/ Parse) /\ k' = 1
  \/ /\ ph = "deliver" /\ k <= Len(Ev)
     /\ Deliver(Ev[k].o, Ev[k].r)
     /\ k' = k + 1
  \/ /\ ph = "deliver" /\ k = Len(Ev) + 1
     /\ MayReturn(Tr[c].res, Tr[c].v, Tr[c].e, Tr[c].m) = TRUE
     /\ Tr[c].s # "" => (MayReturnString(Tr[c].s, Tr[c].st, Tr[c].sv, Tr[c].se, Tr[c].sm) = TRUE)
     (* what the generator meant the symbol to say, where it knows *)
     /\ Tr[c].w => (msg = Tr[c].want /\ res = {Tr[c].wres})
     /\ Return
     /\ k' = 1

Spec == Init /\ [][Next]_allvars

(* Progress: highest case reached, with the deepest phase, kept in TLC     *)
(* registers; acceptance is decided when the state space is exhausted.     *)
Note == /\ (IF c > TLCGet(1) THEN TLCSet(1, c) /\ TLCSet(2, {}) ELSE TRUE)
        /\ (IF c = TLCGet(1) /\ ph = "deliver" /\ c <= Len(Tr)
            THEN TLCSet(2, {[res |-> res, loose |-> loose, k |-> k, sent |-> sent, fault |-> fault,
                             fmt |-> fmt, mir |-> mir, msg |-> msg]}) ELSE TRUE)
ASSUME TLCSet(3, ZZ)
ASSUME TLCSet(1, 0) /\ TLCSet(2, {})

Accepted ==
  IF TLCGet(1) = Len(Tr) + 1
  THEN PrintT(<<"ACCEPTED", Len(Tr)>>)
  ELSE PrintT(<<"REJECTED", TLCGet(1), Tr[TLCGet(1)].id, TLCGet(2)>>)
=============================================================================
