-------------------------------- MODULE TC06 --------------------------------
(* Facts: per image its content (digest, shape, type) and per pair and metric *)
(* the score of the plain contiguous arrays.                                  *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => CloseR(a, b, 100000, 1000))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "load" ->
            LET f == Facts[ev.fact] IN
            Chk(ev.res = "ok", "load_failed")
            \cup (IF ev.res # "ok" THEN {} ELSE
                  Chk(ev.type = "ImageArray", "not_an_image_object")
                  \cup Chk(ev.shape = f.shape, "wrong_shape")
                  \cup Chk(ev.dtype = f.dtype, "wrong_type")
                  \cup Chk(ev.h = f.h, "wrong_values"))
       [] ev.k = "score" ->
            LET f == Facts[ev.fact] IN
            Chk(ev.res = f.res, "outcome_depends_on_representation")
            \cup Chk(ev.res = "ok" /\ f.res = "ok" => EqV(ev.v, f.v), "score_depends_on_representation")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
