-------------------------------- MODULE Pair --------------------------------
(* A full-reference metric validates a pair step by step before it computes   *)
(* anything; the remembered score changes only when all steps passed.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kinds, Axes, Types, Sizes
(* Axes: "c" stands for three axes the last of which has three channels *)
Image == [kind : Kinds, ax : Axes, ty : Types, sz : Sizes]
Good == {"array", "image", "tensor"}
VARIABLES r, m, chrom, pc, remembered
vars == <<r, m, chrom, pc, remembered>>
Init == /\ r \in Image /\ m \in Image /\ chrom \in BOOLEAN /\ pc = "load" /\ remembered = "old"
Reject == pc' = "rejected" /\ UNCHANGED <<r, m, chrom, remembered>>
Go(n) == pc' = n /\ UNCHANGED <<r, m, chrom, remembered>>
Loads(i) == i.kind \in Good /\ i.ax \in {"2", "3", "c"}
Load == pc = "load" /\ IF Loads(r) /\ Loads(m) THEN Go("types") ELSE Reject
TypesStep == pc = "types" /\ IF r.ty = m.ty THEN Go("shapes") ELSE Reject
ShapesStep == pc = "shapes" /\ IF r.ax = m.ax /\ r.sz = m.sz THEN Go("colour") ELSE Reject
Colour == pc = "colour" /\ IF chrom /\ r.ax # "c" THEN Reject ELSE Go("score")
Score == pc = "score" /\ pc' = "scored" /\ remembered' = "new" /\ UNCHANGED <<r, m, chrom>>
Next == Load \/ TypesStep \/ ShapesStep \/ Colour \/ Score
Comparable == /\ r.kind \in Good /\ m.kind \in Good
              /\ r.ax = m.ax /\ r.ax \in {"2", "3", "c"} /\ r.ty = m.ty /\ r.sz = m.sz
              /\ (chrom => r.ax = "c")
Right == (pc = "scored" => Comparable) /\ (pc = "rejected" => ~Comparable)
Remember == remembered = "new" <=> pc = "scored"
Emit == pc \in {"scored", "rejected"} =>
          PrintT("@@C " \o ToJson([r |-> r, m |-> m, chrom |-> chrom, ok |-> Comparable]))
=============================================================================
