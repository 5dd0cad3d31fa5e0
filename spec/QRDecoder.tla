----------------------------- MODULE QRDecoder ------------------------------
(***************************************************************************)
(* The decoder as a state machine.  One behaviour decodes one grid after   *)
(* another (`Cases`); for each:                                            *)
(*                                                                         *)
(*   Start        reject sizes that are no QR version                      *)
(*   ReadFmt      format information from either copy                      *)
(*   Extract      unmasked codewords in zigzag order                       *)
(*   Fix          error correction, one block per step                     *)
(*   Mirror       if any of this failed, once more with the grid mirrored; *)
(*                if that fails too the first error is the result          *)
(*   Parse        segments of the data stream, one per step                *)
(*   Deliver      bytes handed to the caller's writer, which may accept a  *)
(*                part, interrupt, refuse or fail                          *)
(*   Return       result and metadata                                      *)
(*                                                                         *)
(* Delivery is only enabled once every block is a codeword.                *)
(***************************************************************************)
EXTENDS QRSymbol

CONSTANTS NumCases,       \* number of cases
          CaseGrid(_),    \* flat grid of case c
          CaseSize(_),    \* its side length
          Zig(_)          \* codeword bit order of a version (memoised ZigZag)

VARIABLES c,      \* case being decoded
          ph,     \* phase
          mir,    \* reading the mirrored grid?
          err0,   \* error of the straight attempt
          fmt,    \* format data
          cws,    \* codewords as read
          b,      \* block to correct next
          dat,    \* corrected data codewords
          pos,    \* bit position in dat
          msg,    \* the message decoded so far; on failure its longest deliverable prefix
          res,    \* set of results the decoder may return
          loose,  \* the stream is ill-formed beyond what is specified
          sent,   \* bytes of msg the writer has accepted
          fault   \* the writer failed

vars == <<c, ph, mir, err0, fmt, cws, b, dat, pos, msg, res, loose, sent, fault>>

Fresh == /\ mir = FALSE /\ err0 = "" /\ fmt = 0 /\ cws = << >> /\ b = 1 /\ dat = << >>
         /\ pos = 0 /\ msg = << >> /\ res = {} /\ loose = FALSE /\ sent = 0 /\ fault = FALSE
FreshNext == /\ mir' = FALSE /\ err0' = "" /\ fmt' = 0 /\ cws' = << >> /\ b' = 1 /\ dat' = << >>
             /\ pos' = 0 /\ msg' = << >> /\ res' = {} /\ loose' = FALSE /\ sent' = 0 /\ fault' = FALSE

Ver == VersionOfSize(CaseSize(c))
Ecc == EccOf(fmt)
Mask == MaskOf(fmt)

InitDec == c = 1 /\ ph = "start" /\ Fresh

(* Sizes between two versions are accepted leniently by the library;       *)
(* nothing is specified about what they decode to.                         *)
Start ==
  /\ ph = "start" /\ c <= NumCases
  /\ LET n == CaseSize(c) IN
     IF n \in ValidSizes
     THEN /\ ph' = "fmt"
          /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, pos, msg, res, loose, sent, fault>>
     ELSE /\ ph' = "deliver"
          /\ IF n < 21 \/ n >= 181
             THEN res' = {"InvalidVersion"} /\ loose' = FALSE
             ELSE res' = {} /\ loose' = TRUE
          /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, pos, msg, sent, fault>>

(* An attempt failed with error e.                                         *)
AttemptFailed(e) ==
  IF mir
  THEN /\ ph' = "deliver" /\ res' = {err0}
       /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, pos, msg, loose, sent, fault>>
  ELSE /\ ph' = "fmt" /\ mir' = TRUE /\ err0' = e
       /\ cws' = << >> /\ b' = 1 /\ dat' = << >>
       /\ UNCHANGED <<c, fmt, pos, msg, res, loose, sent, fault>>

ReadFmt ==
  /\ ph = "fmt"
  /\ LET f == ReadFormat(CaseGrid(c), CaseSize(c), mir) IN
     IF f < 0 THEN AttemptFailed("FormatEcc")
     ELSE /\ fmt' = f /\ ph' = "extract"
          /\ UNCHANGED <<c, mir, err0, cws, b, dat, pos, msg, res, loose, sent, fault>>

Extract ==
  /\ ph = "extract"
  /\ cws' = TLCEval(Codewords(CaseGrid(c), Ver, Mask, mir, Zig(Ver)))
  /\ ph' = "fix" /\ b' = 1 /\ dat' = << >>
  /\ UNCHANGED <<c, mir, err0, fmt, pos, msg, res, loose, sent, fault>>

(* Correct one block.  With more errors than the code can correct the      *)
(* decoder fails, or -- if the received word happens to lead to another    *)
(* code word -- may take that one.                                         *)
Accept(cw) ==
  /\ dat' = dat \o SubSeq(cw, 1, DataLen(Ver, Ecc, b))
  /\ IF b = NumBlocks(Ver, Ecc)
     THEN ph' = "parse" /\ b' = 1 /\ cws' = << >>
     ELSE ph' = "fix" /\ b' = b + 1 /\ UNCHANGED cws
  /\ UNCHANGED <<c, mir, err0, fmt, pos, msg, res, loose, sent, fault>>

Fix ==
  /\ ph = "fix"
  /\ LET r == TLCEval(CorrectBlock(cws, Ver, Ecc, b)) IN
     \/ r.tag \in {"within", "beyond"} /\ Accept(r.cw)
     \/ r.tag \in {"fail", "beyond"} /\ AttemptFailed("DataEcc")

Parse ==
  /\ ph = "parse"
  /\ IF StreamBits(dat) - pos < 4
     THEN /\ res' = {"Ok"} /\ ph' = "deliver"
          /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, pos, msg, loose, sent, fault>>
     ELSE LET s == TLCEval(Segment(dat, Ver, pos)) IN
          IF s.loose
          THEN /\ loose' = TRUE /\ ph' = "deliver"
               /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, pos, msg, res, sent, fault>>
          ELSE /\ pos' = s.next
               /\ msg' = msg \o s.hi
               /\ IF s.st = "more" THEN ph' = "parse" /\ UNCHANGED res
                  ELSE /\ ph' = "deliver"
                       /\ res' = IF s.st = "ShortCount" THEN {"Ok", "DataUnderflow"} ELSE {s.st}
               /\ UNCHANGED <<c, mir, err0, fmt, cws, b, dat, loose, sent, fault>>

(* The decoder offers `off`; the writer answers r: r > 0 bytes accepted,   *)
(* 0 nothing accepted, -1 interrupted (try again), -2 failed.              *)
Deliver(off, r) ==
  /\ ph = "deliver" /\ ~fault
  /\ \/ loose
     \/ /\ Len(off) >= 1
        /\ sent + Len(off) <= Len(msg)
        /\ (\A k \in 1 .. Len(off) : off[k] = msg[sent + k]) = TRUE
  /\ sent' = IF r > 0 THEN sent + r ELSE sent
  /\ fault' = (r = 0 \/ r = 0 - 2)
  /\ UNCHANGED <<c, ph, mir, err0, fmt, cws, b, dat, pos, msg, res, loose>>

(* Everything a caller may see as the result.                              *)
MayReturn(r, v, e, m) ==
  \/ loose
  \/ fault /\ r = "IoError"
  \/ /\ ~fault /\ r \in res
     /\ r = "Ok" => /\ sent = Len(msg)
                    /\ v = Ver /\ e = Ecc /\ m = Mask

Return ==
  /\ ph = "deliver"
  /\ c' = c + 1 /\ ph' = "start"
  /\ FreshNext

(* The String returning decoder: all or nothing, and UTF-8.                *)
MayReturnString(r, text, v, e, m) ==
  \/ loose
  \/ /\ "Ok" \in res
     /\ IF Utf8OK(msg) THEN r = "Ok" /\ text = msg /\ v = Ver /\ e = Ecc /\ m = Mask
        ELSE r = "EncodingError"
  \/ r \in res \ {"Ok"}
=============================================================================
