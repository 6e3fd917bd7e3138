-------------------------------- MODULE Kernel --------------------------------
(* An image and the same image with a constant added are filtered.            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, N, Vals, Modes, MaxOn      \* filters are linear: few pixels that are not 0
VARIABLES name, img, add, ph, a, b
vars == <<name, img, add, ph, a, b>>
L == INSTANCE KernelLib
K == L!Kernels[name]
SpAll == [m \in Names |-> L!Sparse(L!Kernels[m])]
Size(m) == IF L!Kernels[m].n = 2 THEN N * N ELSE N * N * N
Shape == [i \in 1..K.n |-> N]
Z == Size(name)
Init == /\ name \in Names /\ img \in [1..Size(name) -> Vals] /\ Cardinality({i \in 1..Size(name) : img[i] # 0}) <= MaxOn /\ add \in {0, 3} /\ ph = "start" /\ a = <<>> /\ b = <<>>
Filter == /\ ph = "start" /\ ph' = "one" /\ a' = L!Response(SpAll[name], img, Shape) /\ UNCHANGED <<name, img, add, b>>
Again == /\ ph = "one" /\ ph' = "both" /\ b' = L!Response(SpAll[name], [i \in 1..Z |-> img[i] + add], Shape)
         /\ UNCHANGED <<name, img, add, a>>
Next == Filter \/ Again
First == ph = "start" /\ add = 0 /\ \A i \in 1..Z : img[i] = 0
Opp(o) == [i \in 1..Len(o) |-> -o[i]]
SumZero == LET RECURSIVE S(_) S(q) == IF q = {} THEN 0 ELSE LET o == CHOOSE x \in q : TRUE IN L!Weight(K, o) + S(q \ {o})
           IN First => S(L!Offsets(K)) = 0
Anti == First => \A o \in L!Offsets(K) : L!Weight(K, o) = -L!Weight(K, Opp(o))
Shift == ph = "both" => a = b
Flat == (ph # "start" /\ \A i \in 1..Z : img[i] = img[1]) => \A i \in 1..Z : a[i] = 0
(* border rules: inside nothing changes, outside always a pixel of the image *)
Inside == First => \A m \in Modes, n \in 1..4 : \A i \in 0..(n - 1) : L!Border(m, i, n) = i
Outside == First => \A m \in Modes, n \in 1..4 : \A i \in -5..9 :
             LET j == L!Border(m, i, n) IN (j = -1 /\ m = "constant") \/ (j >= 0 /\ j < n)
(* the kernels of one family differ only by rotations and sign *)
Same(f, g) == {L!Weight(f, o) : o \in L!Offsets(f)} = {L!Weight(g, o) : o \in L!Offsets(g)}
Family == First => \A m \in DOMAIN L!Kernels :
            LET f == L!Kernels[m] IN (f.f = K.f /\ f.n = K.n /\ f.kind = K.kind) => Same(f, K)
Emit == First => PrintT("@@C " \o ToJson([name |-> name]))
=============================================================================
