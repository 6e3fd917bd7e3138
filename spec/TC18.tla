-------------------------------- MODULE TC18 --------------------------------
(* Scores of volumes from the scores of their slices.                         *)
EXTENDS Integers, Sequences, Num, TraceIO
VARIABLES l, st
(* v * n = sum of the slices *)
IsMean(v, sc) ==
  v.k = "n" /\ LET s == ISum([i \in 1..Len(sc) |-> Val(sc[i])])
                   w == IScale(Val(v), Len(sc))
                   e == IAbs(ISub(w, s))
               IN ILe(IScale(e, 100000), IAdd(IAbs(s), IScale(IOf(1000000), Len(sc))))
Near(v, w) == v.k = "n" /\ CloseR(v, w, 100000, 10000)
Valid(ev) == ev.d \in 0..2
Refused(ev) == Chk(ev.res = "ValueError", "invalid_request_accepted")
Vol(ev) ==
  CASE ~Valid(ev) -> Refused(ev)                          \* d = 9: none or invalid
    [] ev.s = "bad" -> Refused(ev)
    [] ev.s = "int" /\ ev.i >= Len(ev.sc) -> Chk(ev.res # "ok", "slice_outside_accepted")
    [] ev.s = "int" -> Chk(ev.res = "ok", "slice_rejected")
                       \cup Chk(ev.res = "ok" => Near(ev.v, ev.sc[ev.i + 1]), "not_the_score_of_the_slice")
                       \cup Chk(ev.res = "ok" => SameNum(ev.v, ev.mem), "not_remembered")
    [] OTHER -> Chk(ev.res = "ok", "volume_rejected")
                \cup Chk(ev.res = "ok" => IsMean(ev.v, ev.sc), "not_the_mean_of_the_slices")
                \cup Chk(ev.res = "ok" => SameNum(ev.v, ev.mem), "not_remembered")
Plane(ev) == Chk(ev.res = "ok", "plane_rejected")
             \cup Chk(ev.res = "ok" => Near(ev.v, ev.w), "plane_depends_on_axis_or_slice")
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "vol" -> Vol(ev)
       [] ev.k = "plane" -> Plane(ev)
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
