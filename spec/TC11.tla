-------------------------------- MODULE TC11 --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Good == {"array", "image", "tensor", "file"}
(* what the images are: kind, shape and element type as measured on the input *)
Loads(i) == i.kind \in Good /\ Len(i.shape) \in {2, 3}
Rgb(i) == Len(i.shape) = 3 /\ i.shape[3] = 3
Comparable(ev) == /\ Loads(ev.r) /\ Loads(ev.m) /\ ev.r.dtype = ev.m.dtype
                  /\ ev.r.shape = ev.m.shape /\ (ev.chrom => Rgb(ev.r))
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "pair" ->
            IF Comparable(ev) THEN
              Chk(ev.res = "ok", "comparable_rejected")
              \cup Chk(ev.res = "ok" => ev.score.k \in {"n", "inf"}, "no_score")
              \cup Chk(ev.res = "ok" => SameNum(ev.after, ev.score), "remembered_is_not_the_score")
            ELSE
              Chk(ev.res # "ok", "incomparable_scored")
              \cup Chk(ev.res \in {"ok", "ValueError"}, "wrong_error")
              \cup Chk(SameNum(ev.after, ev.before), "remembered_changed_by_rejection")
       [] ev.k = "make" -> Chk(ev.res = "ValueError", "invalid_setting_accepted")
       [] ev.k = "made" -> Chk(ev.res = "ok", "valid_setting_rejected")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
