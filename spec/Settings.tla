------------------------------ MODULE Settings -------------------------------
(* Two calls, one after the other, on one metric object.                      *)
EXTENDS SettingsLib, Json
CONSTANTS Metrics, MaxGiven, Alts
VARIABLES m, first, second, done
vars == <<m, first, second, done>>
Lists(S, k) == {<<>>} \cup {<<[n |-> a, v |-> x]>> : a \in S, x \in Alts}
               \cup (IF k < 2 THEN {} ELSE
                     {<<[n |-> p[1], v |-> x], [n |-> p[2], v |-> y]>> : p \in {q \in S \X S : q[1] # q[2]}, x \in Alts, y \in Alts})
Init == m \in Metrics /\ first = <<>> /\ second = <<>> /\ done = 0
One == /\ done = 0 /\ done' = 1
       /\ first' \in {<<>>} \cup {<<[n |-> a, v |-> 1]>> : a \in Names(m)} /\ UNCHANGED <<m, second>>
Two == done = 1 /\ done' = 2 /\ second' \in Lists(Names(m), MaxGiven) /\ UNCHANGED <<m, first>>
Next == One \/ Two
Spec == Init /\ [][Next]_vars
(* spelling out a default is the same as leaving it out *)
DefaultsSpelled == Eff(m, second) = Eff(m, SelectSeq(second, LAMBDA s : s.v # 0))
(* the order of the settings is irrelevant *)
Rev(g) == [i \in 1..Len(g) |-> g[Len(g) + 1 - i]]
OrderFree == Eff(m, second) = Eff(m, Rev(second))
(* only what is given differs from the defaults *)
OnlyGiven == \A n \in Names(m) : Eff(m, second)[n] # 0 => n \in Given(second)
(* thresholds replace the exponents, but only both together *)
Exclusive == m = "MAD" => LET e == Eff(m, second) IN
               /\ (e["thresh_1"] # 0 <=> e["thresh_2"] # 0)
               /\ (e["thresh_1"] # 0 => e["beta_1"] = 0 /\ e["beta_2"] = 0)
Idempotent == Canon(m, Eff(m, second)) = Eff(m, second)
Emit == done = 2 /\ first = <<>> =>
          PrintT("@@C " \o ToJson([m |-> m, given |-> second, eff |-> Eff(m, second), refuse |-> Refuse(m, second)]))
=============================================================================
