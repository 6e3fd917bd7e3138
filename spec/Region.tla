------------------------------- MODULE Region -------------------------------
(* A metric object with a remembered region, asked for a region of an image.  *)
(* The request may name the centre, the radius, both or nothing; what is not  *)
(* named is taken from the last request.  The pixels of the region are then   *)
(* visited in any order.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Dims, Coord, Radii, Types
VARIABLES d, shape, c, r, t, out, seen
vars == <<d, shape, c, r, t, out, seen>>
L == INSTANCE RegionLib
Axes == 1..d
Cells == {x \in [Axes -> 0..6] : \A a \in Axes : x[a] < shape[a]}
Rg == {x \in Cells : L!InRegion(t, c, r, x)}
Init == /\ d \in Dims /\ shape \in [1..d -> Ns] /\ c \in [1..d -> {k - 2 : k \in Coord}] /\ r \in Radii
        /\ t \in Types /\ out = "asked" /\ seen = {}
Decide == /\ out = "asked"
          /\ out' = IF r > 0 /\ L!Fits(shape, c, r) /\ L!KnownType(t) THEN "taken" ELSE "rejected"
          /\ UNCHANGED <<d, shape, c, r, t, seen>>
(* all at once: the visiting order is irrelevant because seen is a set *)
Visit == /\ out = "taken" /\ seen # Rg /\ seen' = Rg /\ UNCHANGED <<d, shape, c, r, t, out>>
Next == Decide \/ Visit
Pow(b, n) == IF n = 2 THEN b * b ELSE b * b * b
(* a cube has edge 2r, lower border inclusive, upper exclusive *)
CubeSize == (out = "taken" /\ L!Cubic(t)) => Cardinality(Rg) = Pow(2 * r, d)
Mirror(x, a) == [x EXCEPT ![a] = 2 * c[a] - x[a]]
(* a ball is symmetric to its centre as far as the image reaches *)
BallSym == (out = "taken" /\ L!Ball(t)) =>
             \A x \in Rg, a \in Axes : Mirror(x, a) \in Cells => Mirror(x, a) \in Rg
BallHasAxes == (out = "taken" /\ L!Ball(t)) =>
             \A a \in Axes : [c EXCEPT ![a] = @ - r] \in Rg
CubeInBallBox == (out = "taken" /\ L!Ball(t)) =>
             \A x \in Rg : \A a \in Axes : x[a] >= c[a] - r /\ x[a] <= c[a] + r
EntireAll == (out = "taken" /\ L!Entire(t)) => Rg = Cells
NonEmpty == out = "taken" => Rg # {}
Never == seen \subseteq Rg
Emit == (out # "asked" /\ (out = "rejected" \/ seen = Rg)) =>
          PrintT("@@C " \o ToJson([shape |-> shape, c |-> c, r |-> r, t |-> t, out |-> out]))
=============================================================================
