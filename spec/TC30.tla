-------------------------------- MODULE TC30 --------------------------------
(* Warnings as observed, classified by what they announce.                    *)
EXTENDS WarnLib, Num, TraceIO
VARIABLES l, st
Seen(ev) == {ev.kinds[i] : i \in 1..Len(ev.kinds)}
Match(ev, want) == Chk(want \subseteq Seen(ev), "warning_missing") \cup Chk(Seen(ev) \subseteq want, "warning_out_of_place")
Score(ev) == Chk((ev.res # "ok") = Refused(ev.q), "refused_or_accepted_wrongly")
             \cup (IF ev.res = "ok" /\ ~Refused(ev.q) THEN Match(ev, Kinds(ev.q)) ELSE {})
(* v printed with so many decimals *)
RECURSIVE Pow10(_)
Pow10(k) == IF k = 0 THEN 1 ELSE 10 * Pow10(k - 1)
Rounded(v, s, k) ==
  v.k = s.k /\ (v.k = "n" => ILe(IScale(IAbs(ISub(Val(v), Val(s))), 2 * Pow10(k)), IAdd(E9, IOf(1000))))
Printed(ev) == Chk(ev.res = "ok", "print_failed")
             \cup Match(ev, IF ev.scored THEN {} ELSE {"noscore"})
             \cup Chk(ev.scored => ev.text = ev.label, "wrong_name_printed")
             \cup Chk(ev.scored => Rounded(ev.v, ev.s, ev.dec), "wrong_value_printed")
             \cup Chk(~ev.scored => ev.v.k = "none", "value_printed_without_score")
Run(ev) == Chk(ev.res = "ok", "run_failed")
           \cup Match(ev, RunKinds(ev.rows, ev.own, ev.glob))
           \cup Chk(ev.skips = Skips(ev.rows), "wrong_number_of_skipped_pairs")
Simple(ev, want) == Chk(ev.res = "ok", "rejected") \cup Match(ev, want)
Step0(s, ev) ==
  [st |-> s,
   fails |->
     Chk(ev.cats, "wrong_category")
     \cup
     (CASE ev.k = "score" -> Score(ev)
       [] ev.k = "load" -> Chk((ev.res # "ok") = LoadBad(ev.q), "refused_or_accepted_wrongly")
                           \cup (IF ev.res = "ok" THEN Match(ev, LoadKinds(ev.q)) ELSE {})
       [] ev.k = "crop" -> Simple(ev, CropKinds(ev.shape, ev.size, ev.z))
       [] ev.k = "print" -> Printed(ev)
       [] ev.k = "run" -> Run(ev)
       [] ev.k = "mad" -> Simple(ev, MadKinds(ev.t1, ev.t2))
       [] ev.k = "ssim" -> Simple(ev, IF ev.whole THEN {} ELSE {"exponent"}) \cup Chk(ev.same, "not_cast_to_an_integer")
       [] ev.k = "auto" -> Simple(ev, IF ev.auto THEN {"auto"} ELSE {})
       [] ev.k = "describe" -> Simple(ev, IF ev.path /\ ev.named THEN {} ELSE {"nofile"})
                               \cup Chk(ev.files = (IF ev.path /\ ev.named THEN 1 ELSE 0), "wrong_files")
       [] ev.k = "view" -> Simple(ev, IF ev.nd # "3" /\ ev.slices THEN {"slices"} ELSE {})
       [] ev.k = "image" -> Simple(ev, IF ev.n = 0 THEN {"noresults"} ELSE {})
       [] ev.k = "deprecated" -> Chk(ev.res = "RemovedInViqa40Warning", "deprecated_use_accepted")
       [] OTHER -> {"machinery_unknown_event"})]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
