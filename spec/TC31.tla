-------------------------------- MODULE TC31 --------------------------------
(* Scorings at the same time.  Facts: what each computation gives alone       *)
(* (outcome, values, what its object remembers).  An event is one concurrent  *)
(* run: the schedule followed and what each computation gave.                 *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => CloseR(a, b, 100000, 1000))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
Count(s, p) == Cardinality({k \in 1..Len(s) : s[k] = p})
Fair(ev) == \A p \in 1..Len(ev.alone) : Count(ev.sched, p) = ev.phases
Same(ev, p) ==
  LET f == Facts[ev.alone[p]]
      o == ev.out[p]
  IN Chk(o.res = f.res, "outcome_depends_on_other_computations")
     \cup (IF o.res # f.res THEN {} ELSE
           Chk(EqV(o.v, f.v), "result_depends_on_other_computations")
           \cup Chk(EqV(o.mem, f.mem) /\ o.state = f.state, "remembers_other_computations"))
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "run" ->
            Chk(ev.sched = <<>> \/ Fair(ev), "machinery_schedule")
            \cup (IF Len(ev.out) # Len(ev.alone) THEN {"computation_lost"}
                  ELSE UNION {Same(ev, p) : p \in 1..Len(ev.alone)})
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
