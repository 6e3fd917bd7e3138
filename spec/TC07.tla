-------------------------------- MODULE TC07 --------------------------------
(* Facts: the score of the images stored as double precision numbers.         *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => CloseR(a, b, 5000, 50000))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "typed" ->
            LET f == Facts[ev.fact] IN
            Chk(f.res = "ok", "machinery_no_reference_value")
            \cup Chk(ev.res = "ok", "type_rejected")
            \cup Chk(ev.res = "ok" /\ f.res = "ok" => EqV(ev.v, f.v), "score_depends_on_type")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
