-------------------------------- MODULE View --------------------------------
(* A cut-out of an image is sliced, mirrored and turned until it is shown.    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Dims, Turns
VARIABLES shape, off, ext, a, k, A, n
vars == <<shape, off, ext, a, k, A, n>>
L == INSTANCE ViewLib
Ax == IF Len(shape) = 2 THEN {0} ELSE 1..3
Plane == L!PlaneAxes(Len(shape), a)
Cut == [i \in 1..ext[Plane[1]] |-> [j \in 1..ext[Plane[2]] |-> L!At(shape, off, a, k, i - 1, j - 1)]]
Init == \E d \in Dims :
          /\ shape \in [1..d -> Ns]
          /\ off \in [1..d -> {0, 1}] /\ ext \in [1..d -> Ns] /\ \A b \in 1..d : off[b] + ext[b] <= shape[b]
          /\ a \in Ax /\ k \in (IF a = 0 THEN {0} ELSE 0..(ext[a] - 1))
          /\ A = Cut /\ n = 0
FlipRows(M) == [i \in 1..Len(M) |-> M[Len(M) + 1 - i]]
FlipCols(M) == [i \in 1..Len(M) |-> [j \in 1..Len(M[i]) |-> M[i][Len(M[i]) + 1 - j]]]
Turn(M) == [i \in 1..Len(M[1]) |-> [j \in 1..Len(M) |-> M[j][Len(M[1]) + 1 - i]]]
Step(M) == n < Turns /\ n' = n + 1 /\ A' = M /\ UNCHANGED <<shape, off, ext, a, k>>
Next == Step(FlipRows(A)) \/ Step(FlipCols(A)) \/ Step(Turn(A))
(* whatever is flipped and turned, the picture stays the slice *)
StillSlice == L!IsSlice(A, shape, off, ext, a, k)
Pixels == {A[i][j] : <<i, j>> \in {z \in (1..Len(A)) \X (1..Len(A[1])) : TRUE}}
Every == Cardinality(Pixels) = ext[Plane[1]] * ext[Plane[2]]
(* and no other one *)
NoOther == \A b \in Ax : \A j \in (IF b = 0 THEN {0} ELSE 0..(ext[b] - 1)) :
             (b # a \/ j # k) => ((ext[Plane[1]] * ext[Plane[2]] = 1) \/ ~L!IsSlice(A, shape, off, ext, b, j)
                                   \/ Cardinality(Pixels) = 1 \/ Len(A) = 1 \/ Len(A[1]) = 1)
CrossOk == Len(shape) = 3 => \A b \in Ax \ {a} : \A j \in 0..(ext[b] - 1) :
             Cardinality(L!Cross(shape, off, ext, a, k, b, j)) * ext[b] = Cardinality(Pixels)
Emit == n = 0 => PrintT("@@C " \o ToJson([shape |-> shape, off |-> off, ext |-> ext, a |-> a, k |-> k]))
=============================================================================
