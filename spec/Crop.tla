-------------------------------- MODULE Crop --------------------------------
(* A region is a half-open interval per axis.  A region with a larger extent  *)
(* than the image on any axis is rejected before anything is cut, whatever    *)
(* the other axes are; otherwise the axes are cut one after the other, in any *)
(* order, and what remains is exactly the block, in image order.              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Dims, MaxHi, Los
VARIABLES d, shape, lo, hi, kept, done, out
vars == <<d, shape, lo, hi, kept, done, out>>
Axes == 1..d
Inside(a) == hi[a] <= shape[a]
TooBig(a) == hi[a] - lo[a] > shape[a]
Init == /\ d \in Dims
        /\ shape \in [1..d -> Ns]
        /\ lo \in [1..d -> Los] /\ hi \in [1..d -> 1..MaxHi]
        /\ \A a \in 1..d : lo[a] < hi[a] /\ (Inside(a) \/ TooBig(a))
        /\ kept = [a \in 1..d |-> <<0, shape[a]>>] /\ done = {} /\ out = "open"
Cells == {x \in [Axes -> 0..5] : \A a \in Axes : x[a] < shape[a]}
Fits == \A a \in Axes : ~TooBig(a)
Reject == /\ out = "open" /\ ~Fits /\ out' = "rejected"
          /\ UNCHANGED <<d, shape, lo, hi, kept, done>>
Cut(a) == /\ out = "open" /\ Fits /\ a \notin done
          /\ kept' = [kept EXCEPT ![a] = <<lo[a], hi[a]>>]
          /\ done' = done \cup {a}
          /\ out' = IF done' = Axes THEN "cut" ELSE "open"
          /\ UNCHANGED <<d, shape, lo, hi>>
Next == Reject \/ \E a \in Axes : Cut(a)
Block == {x \in Cells : \A a \in Axes : lo[a] <= x[a] /\ x[a] < hi[a]}
Kept == {x \in Cells : \A a \in Axes : kept[a][1] <= x[a] /\ x[a] < kept[a][2]}
Exact == out = "cut" => Kept = Block /\ Block # {}
Never == Fits => Block \subseteq Kept       \* no requested pixel is lost on the way
Whole == out = "rejected" => Kept = Cells   \* nothing is cut by a rejected request
Emit == out # "open" => PrintT("@@C " \o ToJson([shape |-> shape, lo |-> lo, hi |-> hi, out |-> out]))
=============================================================================
