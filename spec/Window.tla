------------------------------- MODULE Window -------------------------------
(* Local statistics of a pair of profiles by a sliding window: the sums are   *)
(* updated by the pixel that enters and the one that leaves.                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pix, N, W
VARIABLES x, y, pos, s
vars == <<x, y, pos, s>>
Sums(i, j) == LET RECURSIVE F(_, _)
                  F(k, g) == IF k > j THEN 0 ELSE (CASE g = 1 -> x[k] [] g = 2 -> y[k] [] g = 3 -> x[k] * x[k]
                                                     [] g = 4 -> y[k] * y[k] [] OTHER -> x[k] * y[k]) + F(k + 1, g)
              IN [g \in 1..5 |-> F(i, g)]
At(k) == <<x[k], y[k], x[k] * x[k], y[k] * y[k], x[k] * y[k]>>
Init == x \in [1..N -> Pix] /\ y \in [1..N -> Pix] /\ pos = 1 /\ s = Sums(1, W)
Slide == /\ pos + W <= N
         /\ s' = [g \in 1..5 |-> s[g] + At(pos + W)[g] - At(pos)[g]]
         /\ pos' = pos + 1 /\ UNCHANGED <<x, y>>
Next == Slide
Running == s = Sums(pos, pos + W - 1)
Contained == pos >= 1 /\ pos + W - 1 <= N
VX == W * s[3] - s[1] * s[1]
VY == W * s[4] - s[2] * s[2]
VXY == W * s[5] - s[1] * s[2]
Variances == VX >= 0 /\ VY >= 0 /\ VXY * VXY <= VX * VY
Bounded == 2 * VXY <= VX + VY /\ 2 * s[1] * s[2] <= s[1] * s[1] + s[2] * s[2]
Best == x = y => VXY = VX /\ VX = VY
Emit == pos + W > N => PrintT("@@C " \o ToJson(<<x, y>>))
=============================================================================
