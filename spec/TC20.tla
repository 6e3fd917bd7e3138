-------------------------------- MODULE TC20 --------------------------------
(* Comparison and fusion of metric objects.  The abstract state is the score  *)
(* each object remembers; it changes only by "set" (a real scoring call whose *)
(* value the specification knows): v to 9 decimals, x without rounding.       *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Rank(a) == IF a.k = "-inf" THEN 0 ELSE IF a.k = "inf" THEN 2 ELSE 1
Cmp3(a, b) == IF Rank(a) # Rank(b) THEN (IF Rank(a) < Rank(b) THEN -1 ELSE 1)
              ELSE IF Rank(a) = 1 THEN ICmp(Val(a), Val(b)) ELSE 0
Comparable(a) == a.k \in {"n", "inf", "-inf", "nan"}
(* not a number: different from everything, in no order with anything *)
Expected(op, a, b) ==
  CASE a.k = "nan" \/ b.k = "nan" -> op = "ne"
    [] op = "eq" -> Cmp3(a, b) = 0 [] op = "ne" -> Cmp3(a, b) # 0
    [] op = "lt" -> Cmp3(a, b) < 0 [] op = "le" -> Cmp3(a, b) <= 0
    [] op = "gt" -> Cmp3(a, b) > 0 [] op = "ge" -> Cmp3(a, b) >= 0
SumProd(vs, ws) == ISum([i \in 1..Len(vs) |-> IMul(Val(vs[i]), Val(ws[i]))])
Mag(vs, ws) == ISum([i \in 1..Len(vs) |-> IAbs(IMul(Val(vs[i]), Val(ws[i])))])
(* |ret * 10^9 - sum| <= mag / 10^9 + 10^9   (both scaled by 10^18) *)
SumOk(ret, vs, ws) ==
  ret.k = "n" /\ ILe(IMul(IAbs(ISub(IMul(Val(ret), E9), SumProd(vs, ws))), E9),
                     IAdd(Mag(vs, ws), IMul(IScale(E9, 100), E9)))
Step0(s, ev) ==
  CASE ev.k = "set" -> [fails |-> Chk(\A i \in DOMAIN ev.vals : Close(ev.vals[i], ev.want[i]) \/ (ev.want[i].k = "nan" /\ ev.vals[i].k = "nan"), "score_not_as_known"),
                        st |-> [v |-> ev.vals, x |-> ev.xs]]
    [] ev.k = "cmp" ->
        LET a == s.x[ev.a]
            b == IF ev.b = 0 THEN ev.n ELSE s.x[ev.b]
        IN [fails |-> Chk(Comparable(a) /\ Comparable(b), "machinery_not_comparable")
                 \cup Chk(ev.res = IF Expected(ev.op, a, b) THEN "true" ELSE "false", "wrong_" \o ev.op),
            st |-> s]
    [] ev.k = "sort" ->   \* indices in ascending order of their scores
        [fails |-> Chk(Len(ev.perm) = ev.n /\ {ev.perm[i] : i \in 1..Len(ev.perm)} = 1..ev.n, "not_a_permutation")
              \cup Chk(\A i \in 1..(Len(ev.perm) - 1) : Cmp3(s.x[ev.perm[i]], s.x[ev.perm[i + 1]]) <= 0, "not_sorted"),
         st |-> s]
    [] ev.k = "fuse" ->
        LET vs == [i \in 1..Len(ev.idx) |-> s.v[ev.idx[i]]] IN
        [fails |-> IF Len(ev.idx) # Len(ev.w) THEN Chk(ev.res = "ValueError", "different_lengths_accepted")
                   ELSE Chk(ev.res = "ok", "fusion_failed")
                        \cup Chk(ev.res = "ok" => SumOk(ev.ret, vs, ev.w), "wrong_sum"),
         st |-> s]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
