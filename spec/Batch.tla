-------------------------------- MODULE Batch --------------------------------
(* BatchMetrics.calculate as a state machine.  Scores are symbolic terms: a   *)
(* term names everything a score may depend on, so two runs give the same     *)
(* score exactly if they give the same term.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Images,      \* image names
          Layout,      \* [Images -> layout], shape and element type
          Rois,        \* regions, "none" among them
          MaxRows,
          GlobalRois   \* regions passed to calculate(), "none" = not given

VARIABLES rows,        \* the pairs file with the per-pair regions
          groi,        \* the region passed to calculate()
          i,           \* row being worked on
          pc,          \* "row" -> "load" -> "score" -> "row" ...
          ref, mod,    \* images held in memory
          prevRef, prevMod, prevRoi, prevLay,   \* what they are known as
          keepR, keepM,                         \* may earlier results be reused
          last,        \* results of the row before
          out          \* results of all rows so far
vars == <<rows, groi, i, pc, ref, mod, prevRef, prevMod, prevRoi, prevLay,
          keepR, keepM, last, out>>

(* ---- what a pair is worth on its own ------------------------------------ *)
Resized(m, r) == IF Layout[m] = Layout[r] THEN <<m>> ELSE <<m, Layout[r]>>
FullRef(r, m, roi) == <<"fr", r, Resized(m, r), roi>>
NoRefR(r, roi) == <<"nr", <<r>>, roi>>
NoRefM(r, m, roi) == <<"nr", Resized(m, r), roi>>
Fresh(r, m, roi) == [fr |-> FullRef(r, m, roi), nrr |-> NoRefR(r, roi),
                     nrm |-> NoRefM(r, m, roi)]
Eff(row, g) == IF g # "none" THEN g ELSE row.roi

(* ---- the machine ----------------------------------------------------------- *)
RowSet == [r : Images, m : Images, roi : Rois]
NONE == "none"
NoRes == [fr |-> <<>>, nrr |-> <<>>, nrm |-> <<>>]
Init == /\ rows \in UNION {[1..n -> RowSet] : n \in 1..MaxRows}
        /\ groi \in GlobalRois
        /\ i = 1 /\ pc = "row"
        /\ ref = NONE /\ mod = NONE
        /\ prevRef = NONE /\ prevMod = NONE /\ prevRoi = NONE /\ prevLay = NONE
        /\ keepR = FALSE /\ keepM = FALSE
        /\ last = NoRes /\ out = <<>>

Roi == Eff(rows[i], groi)
SameRoi == Roi = prevRoi

(* the same pair with the same region again: results are copied *)
Skip == /\ pc = "row" /\ i <= Len(rows)
        /\ rows[i].r = prevRef /\ rows[i].m = prevMod /\ SameRoi
        /\ out' = Append(out, last)
        /\ i' = i + 1
        /\ UNCHANGED <<rows, groi, pc, ref, mod, prevRef, prevMod, prevRoi,
                       prevLay, keepR, keepM, last>>

Begin == /\ pc = "row" /\ i <= Len(rows)
         /\ ~(rows[i].r = prevRef /\ rows[i].m = prevMod /\ SameRoi)
         /\ ref' = rows[i].r /\ prevRef' = rows[i].r
         /\ keepR' = (rows[i].r = prevRef /\ SameRoi)
         /\ pc' = "load"
         /\ UNCHANGED <<rows, groi, i, mod, prevMod, prevRoi, prevLay, keepM, last, out>>

LoadMod == /\ pc = "load"
           /\ mod' = rows[i].m /\ prevMod' = rows[i].m
           /\ keepM' = (rows[i].m = prevMod /\ SameRoi /\ Layout[ref] = prevLay)
           /\ prevLay' = Layout[ref]
           /\ prevRoi' = Roi
           /\ pc' = "score"
           /\ UNCHANGED <<rows, groi, i, ref, prevRef, keepR, last, out>>

Score == /\ pc = "score"
         /\ LET res == [fr |-> FullRef(ref, mod, Roi),
                        nrr |-> IF keepR THEN last.nrr ELSE NoRefR(ref, Roi),
                        nrm |-> IF keepM THEN last.nrm ELSE NoRefM(ref, mod, Roi)]
            IN last' = res /\ out' = Append(out, res)
         /\ i' = i + 1 /\ pc' = "row"
         /\ UNCHANGED <<rows, groi, ref, mod, prevRef, prevMod, prevRoi, prevLay,
                        keepR, keepM>>

Next == Skip \/ Begin \/ LoadMod \/ Score
Spec == Init /\ [][Next]_vars

(* ---- properties -------------------------------------------------------------- *)
(* C01: every row gets what it would get on its own, whatever came before *)
AsAlone == \A j \in 1..Len(out) :
             out[j] = Fresh(rows[j].r, rows[j].m, Eff(rows[j], groi))
Complete == (pc = "row" /\ i > Len(rows)) => Len(out) = Len(rows)
InMemory == pc = "score" => ref = rows[i].r /\ mod = rows[i].m

(* one case per finished run *)
Emit == (pc = "row" /\ i > Len(rows)) =>
          PrintT("@@C " \o ToJson([rows |-> rows, groi |-> groi]))
=============================================================================
