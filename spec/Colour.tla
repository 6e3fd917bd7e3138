-------------------------------- MODULE Colour --------------------------------
(* A pair is loaded, perhaps reduced to its luminance, and compared.          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, ColourLib
CONSTANTS Shapes, Vals
VARIABLES shape, colour, a, b, ph, out, diff
vars == <<shape, colour, a, b, ph, out, diff>>
Pix == [1..3 -> Vals]                       \* one pixel of either image
Init == /\ shape \in Shapes /\ colour \in BOOLEAN /\ a \in Pix /\ b \in Pix
        /\ ph = "loaded" /\ out = "open" /\ diff = 0
Decide == /\ ph = "loaded" /\ ph' = "decided" /\ out' = Scored(shape, colour)
          /\ UNCHANGED <<shape, colour, a, b, diff>>
Sq(x) == x * x
Score == /\ ph = "decided" /\ out # "no" /\ ph' = "scored"
         /\ diff' = CASE out = "luminance" -> (IF Lum(a) >= Lum(b) THEN Lum(a) - Lum(b) ELSE Lum(b) - Lum(a))
                      [] OTHER -> Sq(a[1] - b[1]) + Sq(a[2] - b[2]) + Sq(a[3] - b[3])
         /\ UNCHANGED <<shape, colour, a, b, out>>
Next == Decide \/ Score
Low(p) == CHOOSE v \in {p[i] : i \in 1..3} : \A i \in 1..3 : v <= p[i]
High(p) == CHOOSE v \in {p[i] : i \in 1..3} : \A i \in 1..3 : v >= p[i]
Weights == W[1] + W[2] + W[3] = 10000
Between == 10000 * Low(a) <= Lum(a) /\ Lum(a) <= 10000 * High(a)
Equal == (a[1] = a[2] /\ a[2] = a[3]) => Lum(a) = 10000 * a[1]
(* the same image differs in nothing; colour sees every difference *)
Same == (ph = "scored" /\ a = b) => diff = 0
SeesAll == (ph = "scored" /\ out # "luminance" /\ a # b) => diff > 0
OnlyRgb == (ph # "loaded" /\ out \in {"rgb", "luminance"}) => Len(shape) = 3 /\ shape[3] = 3
Kept == (ph # "loaded" /\ ~colour) => out # "no"
Emit == (ph = "decided" /\ a = b /\ \A i \in 1..3 : a[i] = a[1]) =>
          PrintT("@@C " \o ToJson([shape |-> shape, colour |-> colour, out |-> out]))
=============================================================================
