-------------------------------- MODULE Mse ---------------------------------
(* Sum of squared differences of two images, accumulated pixel by pixel in    *)
(* any order.                                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pix, N
VARIABLES r, m, todo, sse, ess
vars == <<r, m, todo, sse, ess>>
Sq(x) == x * x
Init == r \in [1..N -> Pix] /\ m \in [1..N -> Pix] /\ todo = 1..N /\ sse = 0 /\ ess = 0
Next == \E i \in todo : /\ sse' = sse + Sq(r[i] - m[i]) /\ ess' = ess + Sq(m[i] - r[i])
                        /\ todo' = todo \ {i} /\ UNCHANGED <<r, m>>
RECURSIVE SumTo(_)
SumTo(k) == IF k = 0 THEN 0 ELSE Sq(r[k] - m[k]) + SumTo(k - 1)
OrderFree == todo = {} => sse = SumTo(N)
Symmetric == sse = ess
ZeroIffSame == todo = {} => (sse = 0 <=> r = m)
Bounded == \A R \in {255} : sse <= (N - Cardinality(todo)) * R * R
Emit == todo = {} => PrintT("@@C " \o ToJson([r |-> r, m |-> m]))
=============================================================================
