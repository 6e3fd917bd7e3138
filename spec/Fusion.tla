------------------------------- MODULE Fusion -------------------------------
(* Weighted sum accumulated one metric at a time, in any order.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS N, Values, Weights
VARIABLES v, w, todo, acc, order
vars == <<v, w, todo, acc, order>>
Init == /\ v \in [1..N -> Values] /\ w \in [1..N -> Weights]
        /\ todo = 1..N /\ acc = 0 /\ order = <<>>
Next == \E i \in todo : /\ acc' = acc + v[i] * w[i] /\ todo' = todo \ {i}
                        /\ order' = Append(order, i) /\ UNCHANGED <<v, w>>
RECURSIVE S(_)
S(k) == IF k = 0 THEN 0 ELSE v[k] * w[k] + S(k - 1)
(* the order of the metrics does not matter *)
AnyOrder == todo = {} => acc = S(N)
Emit == todo = {} => PrintT("@@C " \o ToJson([v |-> v, w |-> w, order |-> order]))
=============================================================================
