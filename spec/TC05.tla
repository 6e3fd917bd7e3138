-------------------------------- MODULE TC05 --------------------------------
(* The abstract state is the remembered score of every object (a sequence of  *)
(* numbers).  Facts hold what a pristine process returns for the same call.   *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => Close(a, b))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
SameV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
Others(s, ev) == \A x \in DOMAIN s : x = ev.o \/ SameV(ev.vals[x], s[x])
Step0(s, ev) ==
  CASE ev.k = "new" -> [fails |-> Chk(\A x \in DOMAIN ev.vals : ev.vals[x] = <<[k |-> "none", s |-> 0, d |-> <<>>]>>,
                                      "remembers_before_first_call"),
                        st |-> ev.vals]
    [] ev.k = "score" ->
        LET f == Facts[ev.fact] IN
        [fails |-> Chk(ev.ok = f.ok, "outcome_depends_on_history")
              \cup Chk(ev.ok /\ f.ok => EqV(ev.ret, f.v), "score_depends_on_history")
              \cup Chk(ev.ok => SameV(ev.vals[ev.o], ev.ret), "remembered_is_not_returned")
              \cup Chk(~ev.ok => SameV(ev.vals[ev.o], s[ev.o]), "failed_call_changes_remembered")
              \cup Chk(Others(s, ev), "other_object_changed"),
         st |-> ev.vals]
    [] ev.k = "read" -> [fails |-> Chk(\A x \in DOMAIN s : SameV(ev.vals[x], s[x]), "reading_changes_remembered"),
                         st |-> ev.vals]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
