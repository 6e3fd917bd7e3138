-------------------------------- MODULE Resize --------------------------------
(* A modified image is brought to the size of the reference, then cut, before *)
(* it is compared; the reference is only cut.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Vals
VARIABLES n, m, img, off, ext, out, done
vars == <<n, m, img, off, ext, out, done>>
L == INSTANCE ResizeLib
Init == /\ n \in Ns /\ m \in Ns /\ img \in [1..n -> Vals] /\ off \in {0, 1} /\ ext \in Ns /\ off + ext <= m
        /\ out = <<>> /\ done = "loaded"
Resz == /\ done = "loaded" /\ done' = "resized"
        /\ out' = [i \in 1..m |-> L!Linear(img, <<n>>, <<m>>, <<i - 1>>)]
        /\ UNCHANGED <<n, m, img, off, ext>>
Cut == /\ done = "resized" /\ done' = "cut" /\ out' = SubSeq(out, off + 1, off + ext)
       /\ UNCHANGED <<n, m, img, off, ext>>
Next == Resz \/ Cut
D == 2 * m
Lowest == CHOOSE v \in {img[i] : i \in 1..n} : \A i \in 1..n : v <= img[i]
Highest == CHOOSE v \in {img[i] : i \in 1..n} : \A i \in 1..n : v >= img[i]
SameSize == (done = "resized" /\ n = m) => \A i \in 1..m : out[i] = D * img[i]
InRange == \A i \in 1..Len(out) : out[i] >= D * Lowest /\ out[i] <= D * Highest
Sorted == (\A i \in 1..(n - 1) : img[i] <= img[i + 1]) /\ done = "resized" =>
            (m >= n => \A i \in 2..(m - 2) : out[i] <= out[i + 1])
MirrorImage == done = "resized" => \A i \in 1..m :
            LET rev == [j \in 1..n |-> img[n + 1 - j]] IN L!Linear(rev, <<n>>, <<m>>, <<m - i>>) = out[i]
NearIn == \A i \in 0..(m - 1) : \A x \in L!Near(n, m, i) : x >= 0 /\ x < n + 1
NearSame == n = m => \A i \in 0..(m - 1) : L!Near(n, m, i) = {i}
Size == done = "cut" => Len(out) = ext
Emit == (done = "cut" /\ \A i \in 1..n : img[i] = Lowest) => PrintT("@@C " \o ToJson([n |-> n, m |-> m, off |-> off, ext |-> ext]))
=============================================================================
