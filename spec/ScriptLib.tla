------------------------------ MODULE ScriptLib ------------------------------
(* Volume files hold their voxels with x running fastest.                     *)
EXTENDS Integers, Sequences, FiniteSets
Vox(dim, x, y, z) == x + dim[1] * y + dim[1] * dim[2] * z + 1
Kept(n, f) == n \div f
From(n, f) == (n \div 2) - (Kept(n, f) \div 2)
CropSize(dim, f) == [i \in 1..3 |-> Kept(dim[i], f)]
Cnt(dim) == dim[1] * dim[2] * dim[3]
At(dim, i) == <<i % dim[1], (i \div dim[1]) % dim[2], i \div (dim[1] * dim[2])>>
Cropped(file, dim, f) ==
  LET n == CropSize(dim, f)
  IN [i \in 1..Cnt(n) |-> LET q == At(n, i - 1)
                         IN file[Vox(dim, q[1] + From(dim[1], f), q[2] + From(dim[2], f), q[3] + From(dim[3], f))]]
(* every f-th projection, from the first *)
Thinned(file, dim, f) ==
  LET n == (dim[3] + f - 1) \div f
      a == dim[1] * dim[2]
  IN [i \in 1..(a * n) |-> file[((i - 1) \div a) * f * a + ((i - 1) % a) + 1]]
RECURSIVE Joined(_, _)
Joined(files, i) == IF i > Len(files) THEN <<>> ELSE files[i] \o Joined(files, i + 1)
(* reference and modified images belong together by the first three characters *)
Matches(refs, mods) == {<<r, m>> \in (1..Len(refs)) \X (1..Len(mods)) : refs[r].stem = mods[m].three}
=============================================================================
