-------------------------------- MODULE Morph --------------------------------
(* Detection step by step: dilate, erode once more than dilated, then look    *)
(* for the deepest pixel.                                                     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Shape, Edges, Holes, Its
VARIABLES b, it, s, k, phase
vars == <<b, it, s, k, phase>>
M == INSTANCE MorphLib
Sh == Shape
Rect(p, q) == {x * Sh[2] + y : x \in p[1]..(p[2] - 1), y \in q[1]..(q[2] - 1)}
Spans(n) == {<<u, v>> \in (Edges \X Edges) : u < v /\ v <= n}
Init == /\ \E p1 \in Spans(Sh[1]), q1 \in Spans(Sh[2]), p2 \in Spans(Sh[1]), q2 \in Spans(Sh[2]), h \in Holes :
             b = (Rect(p1, q1) \cup Rect(p2, q2)) \ {h}
        /\ it \in Its /\ s = b /\ k = 0 /\ phase = "dilate"
Dil == /\ phase = "dilate" /\ s' = M!Dilate(Sh, s)
       /\ IF k + 1 = it THEN phase' = "erode" /\ k' = 0 ELSE phase' = phase /\ k' = k + 1
       /\ UNCHANGED <<b, it>>
Ero == /\ phase = "erode" /\ s' = M!Erode(Sh, s)
       /\ IF k + 1 = it + 1 THEN phase' = "done" /\ k' = 0 ELSE phase' = phase /\ k' = k + 1
       /\ UNCHANGED <<b, it>>
Next == Dil \/ Ero
Done == phase = "done"
(* border pixels are never foreground: every region around a foreground pixel *)
(* with a radius up to its depth stays inside the image                       *)
Deep == M!Deepest(Sh, s)
Inside == Done => \A c \in Deep.c : LET r == M!Isqrt(Deep.d2) x == M!Coords(Sh, c)
                                     IN \A a \in 1..2 : x[a] - r >= 0 /\ x[a] + r <= Sh[a]
(* everything closer to the centre than its depth is foreground *)
Open == Done => \A c \in Deep.c : \A j \in M!Pixels(Sh) : M!PDist2(Sh, c, j) < Deep.d2 => j \in s
(* the shore gives the same depth as all of the background *)
ShoreOk == Done => \A c \in s : M!Depth2(Sh, s, M!Shore(Sh, s), c)
                                = M!MinOf({M!PDist2(Sh, c, j) : j \in M!Pixels(Sh) \ s})
Same == Done => s = M!Clean(Sh, b, it)
Emit == (Done /\ b # {} /\ b # M!Pixels(Sh)) => PrintT("@@C " \o ToJson([shape |-> Sh, b |-> b, it |-> it, empty |-> (s = {})]))
=============================================================================
