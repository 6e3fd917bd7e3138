-------------------------------- MODULE Norm --------------------------------
(* Normalisation: first the extremes are found pixel by pixel, then every     *)
(* pixel is mapped.  Integer images, rounded down.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Vals, Len0, R
VARIABLES img, lo, hi, i, out
vars == <<img, lo, hi, i, out>>
Init == /\ img \in [1..Len0 -> Vals] /\ lo = img[1] /\ hi = img[1] /\ i = 1 /\ out = <<>>
Scan == /\ i <= Len0
        /\ lo' = (IF img[i] < lo THEN img[i] ELSE lo) /\ hi' = (IF img[i] > hi THEN img[i] ELSE hi)
        /\ i' = i + 1 /\ UNCHANGED <<img, out>>
Map == /\ i > Len0 /\ hi > lo /\ Len(out) < Len0
       /\ out' = Append(out, ((img[Len(out) + 1] - lo) * R) \div (hi - lo))
       /\ UNCHANGED <<img, lo, hi, i>>
Next == Scan \/ Map
Done == Len(out) = Len0
InRange == \A k \in 1..Len(out) : out[k] \in 0..R
Ends == Done => \A k \in 1..Len0 : (img[k] = lo => out[k] = 0) /\ (img[k] = hi => out[k] = R)
Monotone == Done => \A j, k \in 1..Len0 : img[j] <= img[k] => out[j] <= out[k]
(* images that already span the range are kept *)
Fixed == Done /\ lo = 0 /\ hi = R => \A k \in 1..Len0 : out[k] = img[k]
Emit == Done => PrintT("@@C " \o ToJson(img))
=============================================================================
