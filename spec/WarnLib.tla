------------------------------- MODULE WarnLib -------------------------------
(* The situations the documentation announces with a warning.                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Whole == {"RMSE", "PSNR", "SSIM", "UQI"}
Sliced == {"MSSSIM", "FSIM", "VIFp", "VSI", "GSM", "MAD"}
Chromatic == {"RMSE", "PSNR", "SSIM", "MSSSIM", "FSIM", "VIFp", "VSI"}
(* a request: m metric, nd "2", "3" or "c"; chrom; range (0: none, 1: given); *)
(* norm; eight: 8 bit values to be normalised to 8 bit; roi "none", "all" or  *)
(* "part"; dim, sl: 99 for not given                                          *)
Volume(q) == q.nd = "3" /\ q.m \in Sliced
Flat(q) == q.nd # "3" /\ q.m \in Sliced
(* one stage after the other; stage 0 to 4; a set of warnings or a refusal    *)
LoadW(q) == (IF q.range = 1 /\ ~q.norm THEN {"range"} ELSE {})
            \cup (IF q.norm /\ q.range = 1 /\ q.eight THEN {"normalized"} ELSE {})
            \cup (IF q.roi = "all" THEN {"cropped"} ELSE {})
LoadBad(q) == q.norm /\ q.range = 0
CheckW(q) == IF q.nd = "c" /\ ~q.chrom THEN {"grey"} ELSE {}
CheckBad(q) == q.chrom /\ q.nd # "c"
ScoreW(q) == IF Flat(q) THEN (IF q.dim # 99 \/ q.sl # 99 THEN {"plane"} ELSE {})
             ELSE IF Volume(q) /\ q.dim # 99 /\ q.sl = 99 THEN {"volume"} ELSE {}
ScoreBad(q) == Volume(q) /\ q.dim \notin {0, 1, 2}
Refused(q) == LoadBad(q) \/ CheckBad(q) \/ ScoreBad(q)
Kinds(q) == LoadW(q) \cup CheckW(q) \cup ScoreW(q)
(* loading one image *)
LoadKinds(q) == LoadW(q)
(* cropping to a block: sizes of the image and the block *)
CropKinds(shape, size, z) ==
  IF size = shape THEN {"cropped"} ELSE IF Len(shape) = 2 /\ z THEN {"zaxis"} ELSE {}
(* rows of a batch: pairs <<r, m, roi>> *)
Skips(rows) == Cardinality({i \in 2..Len(rows) : rows[i] = rows[i - 1]})
RunKinds(rows, own, glob) == (IF Skips(rows) > 0 THEN {"skipped"} ELSE {}) \cup (IF own /\ glob THEN {"rois"} ELSE {})
(* MAD's thresholds *)
MadKinds(t1, t2) == IF t1 # t2 THEN {"together"} ELSE IF t1 THEN {"betas"} ELSE {}
=============================================================================
