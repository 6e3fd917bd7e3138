------------------------------ MODULE ColourLib ------------------------------
(* What an image is and what is scored of it.                                 *)
EXTENDS Integers, Sequences
IsRgb(shape) == Len(shape) = 3 /\ shape[3] = 3
(* colour: the colour setting; "no" - rejected *)
Scored(shape, colour) ==
  IF IsRgb(shape) THEN IF colour THEN "rgb" ELSE "luminance"
  ELSE IF colour THEN "no" ELSE "grey"
(* luminance of a pixel, times 10^4 *)
W == <<2125, 7154, 721>>
Lum(p) == W[1] * p[1] + W[2] * p[2] + W[3] * p[3]
=============================================================================
