------------------------------- MODULE Volume -------------------------------
(* Reading a binary volume: the file holds its elements with x fastest; the   *)
(* implementation reshapes, rotates and flips.  Arrays are functions from     *)
(* index triples.                                                             *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxSize
Sizes == 1..MaxSize
VARIABLES dim, arr, shape, pc
vars == <<dim, arr, shape, pc>>
Tri(s) == {<<i, j, k>> : i \in 0..(s[1] - 1), j \in 0..(s[2] - 1), k \in 0..(s[3] - 1)}
Init == /\ dim \in Sizes \X Sizes \X Sizes
        /\ shape = <<dim[3], dim[2], dim[1]>>
        \* reshape(*dim[::-1]) of the element numbers
        /\ arr = [t \in Tri(<<dim[3], dim[2], dim[1]>>) |-> t[3] + dim[1] * t[2] + dim[1] * dim[2] * t[1]]
        /\ pc = "reshaped"
(* rot90 in the plane of axes 0 and 2: transpose after reversing axis 2 *)
Rot == /\ pc = "reshaped" /\ pc' = "rotated"
       /\ shape' = <<shape[3], shape[2], shape[1]>>
       /\ arr' = [t \in Tri(shape') |-> arr[<<t[3], t[2], shape[3] - 1 - t[1]>>]]
       /\ UNCHANGED dim
Flip == /\ pc = "rotated" /\ pc' = "done"
        /\ arr' = [t \in Tri(shape) |-> arr[<<shape[1] - 1 - t[1], t[2], t[3]>>]]
        /\ UNCHANGED <<dim, shape>>
Next == Rot \/ Flip
Faithful == pc = "done" => /\ shape = dim
                           /\ \A t \in Tri(dim) : arr[t] = t[1] + dim[1] * t[2] + dim[1] * dim[2] * t[3]
Emit == pc = "done" => PrintT("@@C " \o ToJson(dim))
=============================================================================
