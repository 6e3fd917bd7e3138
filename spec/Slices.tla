------------------------------- MODULE Slices -------------------------------
(* Scoring a volume with a metric for planes.  A volume is a function from    *)
(* voxel numbers; slice k of axis d is the plane of all voxels with           *)
(* coordinate k on d, its other axes in their order.  The implementations     *)
(* index the volume directly, or move the axis to the end, build a batch of   *)
(* planes and reduce by the mean over the batch.                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shapes, Emitted
VARIABLES shape, d, batch, k, phase
vars == <<shape, d, batch, k, phase>>
Vox(s) == 0..(s[1] * s[2] * s[3] - 1)
Lin(s, x) == (x[1] * s[2] + x[2]) * s[3] + x[3]
Other(e) == CASE e = 0 -> <<2, 3>> [] e = 1 -> <<1, 3>> [] OTHER -> <<1, 2>>
(* the plane as sequence of voxel numbers, row by row *)
Plane(s, e, n) ==
  LET o == Other(e) h == s[o[1]] w == s[o[2]]
  IN [i \in 1..(h * w) |->
        Lin(s, [a \in 1..3 |-> IF a = e + 1 THEN n ELSE IF a = o[1] THEN (i - 1) \div w ELSE (i - 1) % w])]
(* moved axis: sizes and voxel at position y of the moved volume *)
MShape(s, e) == <<s[Other(e)[1]], s[Other(e)[2]], s[e + 1]>>
MVox(s, e, y) == LET o == Other(e) IN
  Lin(s, [a \in 1..3 |-> IF a = e + 1 THEN y[3] ELSE IF a = o[1] THEN y[1] ELSE y[2]])
Init == /\ shape \in Shapes /\ d \in 0..2 /\ batch = <<>> /\ k = 0 /\ phase = "batch"
Take == /\ phase = "batch"
        /\ LET m == MShape(shape, d)
           IN batch' = Append(batch, [i \in 1..(m[1] * m[2]) |->
                                        MVox(shape, d, <<(i - 1) \div m[2], (i - 1) % m[2], k>>)])
        /\ k' = k + 1
        /\ phase' = IF k + 1 = shape[d + 1] THEN "done" ELSE "batch"
        /\ UNCHANGED <<shape, d>>
Next == Take
Done == phase = "done"
Members(q) == {q[i] : i \in 1..Len(q)}
SameSlices == Done => \A n \in 1..Len(batch) : batch[n] = Plane(shape, d, n - 1)
Complete == Done => UNION {Members(batch[n]) : n \in 1..Len(batch)} = Vox(shape)
Disjoint == Done => \A m, n \in 1..Len(batch) : m # n => Members(batch[m]) \cap Members(batch[n]) = {}
Emit == (Done /\ shape \in Emitted) => PrintT("@@C " \o ToJson([shape |-> shape, d |-> d, planes |-> batch]))
=============================================================================
