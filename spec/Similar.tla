------------------------------- MODULE Similar -------------------------------
(* A similarity index averages (2ab + c) / (a^2 + b^2 + c) over locations.    *)
(* It is symmetric, at most one, and one exactly for equal feature maps.      *)
(* num and den accumulate the shortfall (a - b)^2 and a common denominator.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Feat, N, C
VARIABLES a, b, i, short, worst
vars == <<a, b, i, short, worst>>
Num(x, y) == 2 * x * y + C
Den(x, y) == x * x + y * y + C
Init == a \in [1..N -> Feat] /\ b \in [1..N -> Feat] /\ i = 0 /\ short = 0 /\ worst = 0
Next == /\ i < N /\ i' = i + 1
        /\ short' = short + (Den(a[i + 1], b[i + 1]) - Num(a[i + 1], b[i + 1]))
        /\ worst' = worst + (Den(b[i + 1], a[i + 1]) - Num(b[i + 1], a[i + 1]))
        /\ UNCHANGED <<a, b>>
Symmetric == short = worst
AtMostOne == short >= 0
OneIffSame == i = N => (short = 0 <=> a = b)
Emit == i = N => PrintT("@@C " \o ToJson(<<a, b>>))
=============================================================================
