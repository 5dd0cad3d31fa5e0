----------------------------- MODULE RawReader ------------------------------
(***************************************************************************)
(* The raw bit stream of a grid: the modules that carry codeword bits, as  *)
(* they are drawn (mask not removed, no correction, no mirroring), in      *)
(* codeword order, together with the metadata.                             *)
(***************************************************************************)
EXTENDS QRSymbol

CONSTANTS NumGrids, GridOf(_), SideOf(_), Order0(_)
VARIABLES rc, rph, rfmt, rbits
rvars == <<rc, rph, rfmt, rbits>>

InitRaw == rc = 1 /\ rph = "size" /\ rfmt = 0 /\ rbits = << >>

RVer == VersionOfSize(SideOf(rc))
(* Sizes between versions are read leniently, unspecified: "any".          *)
CheckSize == /\ rph = "size" /\ rc <= NumGrids
             /\ rph' = (IF SideOf(rc) \in ValidSizes THEN "format"
                        ELSE IF SideOf(rc) < 21 \/ SideOf(rc) >= 181 THEN "InvalidVersion" ELSE "any")
             /\ UNCHANGED <<rc, rfmt, rbits>>
FormatStep == /\ rph = "format"
              /\ rfmt' = ReadFormat(GridOf(rc), SideOf(rc), FALSE)
              /\ rph' = IF rfmt' < 0 THEN "FormatEcc" ELSE "collect"
              /\ UNCHANGED <<rc, rbits>>
Collect == /\ rph = "collect"
           /\ rbits' = TLCEval(RawBits(GridOf(rc), SideOf(rc), FALSE, Order0(RVer)))
           /\ rph' = "Ok"
           /\ UNCHANGED <<rc, rfmt>>
Emit == /\ rph \in {"Ok", "InvalidVersion", "FormatEcc", "any"}
        /\ rc' = rc + 1 /\ rph' = "size" /\ rfmt' = 0 /\ rbits' = << >>

(* Bit k of a packed stream, most significant first.                       *)
PackedBit(d, k) == (d[(k - 1) \div 8 + 1] \div (2 ^ (7 - ((k - 1) % 8)))) % 2
Packed(d, len, bs) ==
  /\ len = Len(bs)
  /\ Len(d) = (len + 7) \div 8
  /\ \A k \in 1 .. len : PackedBit(d, k) = bs[k]
  /\ \A k \in len + 1 .. 8 * Len(d) : PackedBit(d, k) = 0
=============================================================================
