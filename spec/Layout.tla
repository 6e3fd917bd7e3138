------------------------------- MODULE Layout -------------------------------
(* An image of a given shape stored in linear memory with a stride per axis   *)
(* (any axis order, gaps, negative strides).  Elements are written one by one *)
(* through the layout and read back in index order: what is read does not     *)
(* depend on the layout.                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shape, Steps
D == Len(Shape)
Axes == 1..D
Perms == {p \in [Axes -> Axes] : \A a, b \in Axes : p[a] = p[b] => a = b}
VARIABLES perm, step, sign, mem, todo
vars == <<perm, step, sign, mem, todo>>
(* perm[1] is the slowest axis *)
RECURSIVE Ext(_)                     \* memory extent below position k of perm
Ext(k) == IF k > D THEN 1 ELSE Shape[perm[k]] * step[perm[k]] * Ext(k + 1)
Pos(a) == CHOOSE k \in Axes : perm[k] = a
Stride(a) == sign[a] * step[a] * Ext(Pos(a) + 1)
RECURSIVE BaseR(_)
BaseR(a) == IF a > D THEN 0
            ELSE (IF sign[a] < 0 THEN (Shape[a] - 1) * step[a] * Ext(Pos(a) + 1) ELSE 0) + BaseR(a + 1)
Idx == {x \in [Axes -> 0..4] : \A a \in Axes : x[a] < Shape[a]}
RECURSIVE OffR(_, _)
OffR(x, a) == IF a > D THEN 0 ELSE x[a] * Stride(a) + OffR(x, a + 1)
Off(x) == BaseR(1) + OffR(x, 1)
Init == /\ perm \in Perms /\ step \in [Axes -> Steps] /\ sign \in [Axes -> {-1, 1}]
        /\ mem = <<>> /\ todo = Idx
Write == \E x \in {CHOOSE y \in todo : TRUE} :
           /\ mem' = (Off(x) :> x) @@ mem /\ todo' = todo \ {x} /\ UNCHANGED <<perm, step, sign>>
Next == todo # {} /\ Write
InMemory == \A x \in Idx : Off(x) >= 0 /\ Off(x) < Ext(1)
LayoutFree == \A x \in Idx \ todo : mem[Off(x)] = x     \* no element overwrites another
Emit == todo = {} => PrintT("@@C " \o ToJson([perm |-> perm, step |-> step, sign |-> sign]))
=============================================================================
