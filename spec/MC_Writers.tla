----------------------------- MODULE MC_Writers -----------------------------
(***************************************************************************)
(* Output segment by segment through write_all, against a writer that at   *)
(* every call takes any part of what it is offered, nothing, is            *)
(* interrupted, or fails.  For every way to cut the message into segments, *)
(* and whether the stream ends well or not, this is an implementation of   *)
(* the delivery protocol of QRDecoder.                                     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Total, MaxInterrupts
VARIABLES cuts,   \* remaining segment lengths
          rest,   \* bytes of the current segment not yet accepted
          acc,    \* bytes accepted, in order
          fin,    \* how the stream ends
          ret,    \* result, "" while running
          bad,    \* the writer refused or failed
          ints    \* interruptions so far (bounded, to be finite)
vars == <<cuts, rest, acc, fin, ret, bad, ints>>
Text == [k \in 1 .. Total |-> 64 + k]

RECURSIVE Compositions(_)
Compositions(n) == IF n = 0 THEN {<< >>} ELSE UNION { { <<k>> \o s : s \in Compositions(n - k) } : k \in 1 .. n }
Init == /\ cuts \in Compositions(Total) /\ rest = << >> /\ acc = << >>
        /\ fin \in {"Ok", "DataUnderflow"} /\ ret = "" /\ bad = FALSE /\ ints = 0

NextSegment == /\ ret = "" /\ ~bad /\ rest = << >> /\ cuts # << >>
               /\ rest' = SubSeq(Text, Len(acc) + 1, Len(acc) + cuts[1])
               /\ cuts' = Tail(cuts) /\ UNCHANGED <<acc, fin, ret, bad, ints>>
(* One call of the writer with everything that is left of the segment.     *)
Write(r) == /\ ret = "" /\ ~bad /\ rest # << >>
            /\ CASE r > 0 -> acc' = acc \o SubSeq(rest, 1, r) /\ rest' = SubSeq(rest, r + 1, Len(rest)) /\ UNCHANGED <<bad, ints>>
                 [] r = 0 - 1 -> ints' = ints + 1 /\ UNCHANGED <<acc, rest, bad>>
                 [] OTHER -> bad' = TRUE /\ UNCHANGED <<acc, rest, ints>>
            /\ UNCHANGED <<cuts, fin, ret>>
Finish == /\ ret = ""
          /\ \/ bad /\ ret' = "IoError"
             \/ ~bad /\ rest = << >> /\ cuts = << >> /\ ret' = fin
          /\ UNCHANGED <<cuts, rest, acc, fin, bad, ints>>
Answers == { r \in (0 - 2) .. Len(rest) : r = 0 - 1 => ints < MaxInterrupts }
Next == NextSegment \/ (\E r \in Answers : Write(r)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Prefix == acc = SubSeq(Text, 1, Len(acc))
OkMeansAll == ret = "Ok" => acc = Text /\ ~bad
FaultSurfaces == (bad /\ ret # "") => ret = "IoError"
Ends == <>(ret # "")

(* The protocol of QRDecoder.                                              *)
NoGrid(i) == << >>
NoSize(i) == 21
NoZig(v) == << >>
D == INSTANCE QRDecoder WITH
       Order <- 4, Prim <- 7, NumCases <- 1, CaseGrid <- NoGrid, CaseSize <- NoSize, Zig <- NoZig,
       c <- IF ret = "" THEN 1 ELSE 2, ph <- IF ret = "" THEN "deliver" ELSE "start",
       mir <- FALSE, err0 <- "", fmt <- 0, cws <- << >>, b <- 1, dat <- << >>, pos <- 0,
       msg <- IF ret = "" THEN Text ELSE << >>, res <- IF ret = "" THEN {fin} ELSE {},
       loose <- FALSE, sent <- IF ret = "" THEN Len(acc) ELSE 0, fault <- (ret = "" /\ bad)
Refines == [][ \/ rest' # rest /\ acc' = acc /\ rest = << >>                        \* nothing visible
               \/ \E r \in (0 - 2) .. Len(rest) : D!Deliver(rest, r)
               \/ ret' # "" /\ D!MayReturn(ret', 1, 0, 0) /\ D!Return ]_vars
=============================================================================
