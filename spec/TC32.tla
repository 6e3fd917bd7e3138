-------------------------------- MODULE TC32 --------------------------------
(* Calls that are cut off, and what comes after.  Facts: what each call gives *)
(* undisturbed (outcome, values) and what its object then remembers, as a     *)
(* sequence of blocks; the objects' memories are the abstract state.          *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => CloseR(a, b, 100000, 1000))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
EqM(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : EqV(a[i], b[i])
(* every block is the earlier or the later one *)
Between(m, a, b) == Len(m) = Len(a) /\ Len(m) = Len(b)
                    /\ \A i \in 1..Len(m) : EqV(m[i], a[i]) \/ EqV(m[i], b[i])
Others(s, ev) == \A x \in DOMAIN s : x = ev.o \/ EqM(ev.mems[x], s[x])
Step0(s, ev) ==
  CASE ev.k = "new" -> [fails |-> {}, st |-> ev.mems]
    [] ev.k = "call" ->
        LET f == Facts[ev.fact]
            o == ev.out
            full == Chk(o.res = f.res, "outcome_after_an_interruption")
                    \cup (IF o.res # f.res THEN {} ELSE
                          Chk(EqV(o.v, f.v), "result_after_an_interruption")
                          \cup Chk(f.res = "ok" => EqM(ev.mems[ev.o], f.mem), "remembered_after_an_interruption")
                          \cup Chk(f.res # "ok" => Between(ev.mems[ev.o], s[ev.o], f.mem),
                                   "remembered_after_a_failure"))
            cut == Chk(ev.cut_by = "KeyboardInterrupt" => o.res = ev.cut_by, "interruption_lost")
                   \cup (IF o.res = "ok" THEN Chk(EqV(o.v, f.v), "wrong_result_of_interrupted_call") ELSE {})
                   \cup Chk(Between(ev.mems[ev.o], s[ev.o], f.mem), "half_remembered")
        IN [fails |-> (IF ev.cut_by = "" THEN full ELSE cut)
              \cup Chk(ev.settings = <<>>, "process_settings_changed")
              \cup Chk(ev.inputs = <<>>, "inputs_changed")
              \cup Chk(ev.files = <<>> \/ ev.cut_by # "", "files_left_behind")
              \cup Chk(Others(s, ev), "other_object_changed"),
            st |-> ev.mems]
    [] ev.k = "unwritable" ->
        [fails |-> Chk(ev.res # "ok" \/ ev.written, "lost_export_not_reported")
                   \cup Chk(ev.settings = <<>>, "process_settings_changed"),
         st |-> s]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
