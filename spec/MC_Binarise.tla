---------------------------- MODULE MC_Binarise -----------------------------
(***************************************************************************)
(* All small grey pictures, with any window: the brightest pixels are      *)
(* never black, a picture of one grey has no black at all, and the running *)
(* means never exceed the window times the brightest value (so that they   *)
(* fit the machine's integers: 32 bits hold pictures of any real width).   *)
(***************************************************************************)
EXTENDS Binarise, FiniteSets, FiniteSetsExt
CONSTANTS Greys, W, H, WindowOf
VARIABLES pic
mbvars == <<gc, row, ma, mb, bw, pic>>
OnePic == 1
PicW(i) == W
PicH(i) == H
Nothing(i) == << >>
Init == InitBin /\ pic = << >>
Shoot == Len(pic) < W * H /\ row = 0 /\ \E g \in Greys : pic' = Append(pic, g) /\ UNCHANGED gvars
Scan == /\ Len(pic) = W * H /\ row < H
        /\ LET r == RowResult(Line(pic, W, row), WindowOf, row % 2 = 0, ma, mb)
           IN ma' = r.a /\ mb' = r.b /\ bw' = Append(bw, r.bw)
        /\ row' = row + 1 /\ UNCHANGED <<gc, pic>>
Next == Shoot \/ Scan
Brightest == Max({ pic[k] : k \in 1 .. Len(pic) })
BrightIsWhite == \A y \in 1 .. Len(bw) : \A x \in 1 .. W :
                   pic[(y - 1) * W + x] = Brightest => bw[y][x] = 0
Bounded == row > 0 => ma <= WindowOf * Brightest /\ mb <= WindowOf * Brightest
(* In a picture of two greys far apart, a dark pixel that follows a bright *)
(* one is black.                                                           *)
EdgeIsBlack == row = H /\ H = 1 => \A x \in 2 .. W - 1 :
                 (pic[x] = 0 /\ pic[x - 1] = 255 /\ pic[x + 1] = 255) => bw[1][x] = 1
=============================================================================
