------------------------------- MODULE Scripts -------------------------------
(* A volume file is cropped, thinned and read again.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Fs
VARIABLES dim, f, file, hist
vars == <<dim, f, file, hist>>
L == INSTANCE ScriptLib
Init == /\ dim \in [1..3 -> Ns] /\ f \in Fs /\ \A i \in 1..3 : dim[i] >= f
        /\ file = [i \in 1..L!Cnt(dim) |-> i] /\ hist = <<>>
Big == \A i \in 1..3 : dim[i] >= f
Crop == /\ Len(hist) < 2 /\ Big /\ dim' = L!CropSize(dim, f) /\ file' = L!Cropped(file, dim, f) /\ hist' = Append(hist, "crop") /\ UNCHANGED f
Thin == /\ Len(hist) < 2 /\ dim' = [dim EXCEPT ![3] = (dim[3] + f - 1) \div f] /\ file' = L!Thinned(file, dim, f)
        /\ hist' = Append(hist, "thin") /\ UNCHANGED f
Next == Crop \/ Thin
SizeFits == Len(file) = L!Cnt(dim)
(* nothing is repeated, the order stays *)
Increasing == \A i \in 1..(Len(file) - 1) : file[i] < file[i + 1]
NotEmpty == Len(file) > 0
(* a block is central: the margins differ by one voxel at most on each axis *)
Central == \A i \in 1..3 : LET k == L!Kept(dim[i], f)
                               a == L!From(dim[i], f)
                           IN Big => a >= 0 /\ a + k <= dim[i] /\ (dim[i] - a - k) - a \in {-1, 0, 1}
Emit == (hist = <<>>) => PrintT("@@C " \o ToJson([dim |-> dim, f |-> f]))
=============================================================================
