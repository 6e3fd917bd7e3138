-------------------------------- MODULE TC29 --------------------------------
(* Settings reach the reference formula. w is the value of the formula for    *)
(* the settings eff, computed outside of the library.                         *)
EXTENDS SettingsLib, Num, TraceIO
VARIABLES l, st
Near(v, w) == v.k = "n" /\ CloseR(v, w, 20000, 20000)
Call(ev) ==
  Chk(ev.eff = Eff(ev.m, ev.given), "machinery_wrong_settings")
  \cup (IF Refuse(ev.m, ev.given) THEN Chk(ev.res = "ValueError", "missing_display_accepted")
        ELSE Chk(ev.res = "ok", "valid_settings_rejected")
             \cup Chk(ev.res = "ok" => Near(ev.v, ev.w), "not_the_formula_with_these_settings")
             \cup Chk(ev.res = "ok" => Near(ev.mem, ev.w), "not_remembered"))
(* filter responses: chosen places of the response, real and imaginary        *)
Gabor(ev) ==
  Chk(ev.eff = Eff("gabor", ev.given), "machinery_wrong_settings")
  \cup Chk(ev.res = "ok", "valid_settings_rejected")
  \cup (IF ev.res # "ok" THEN {} ELSE
        Chk(ev.shape = ev.want, "wrong_number_of_responses")
        \cup Chk(ev.shape = ev.want => \A i \in 1..Len(ev.v) : Near(ev.v[i], ev.w[i]), "wrong_filter_response")
        \cup Chk(\A i \in 1..Len(ev.mean) : CloseR(ev.mean[i], [k |-> "n", s |-> 0, d |-> <<>>], 1000000, 1000), "responds_to_the_mean"))
Bad(ev) == Chk(ev.res = "ValueError", "invalid_settings_accepted")
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "call" -> Call(ev)
       [] ev.k = "gabor" -> Gabor(ev)
       [] ev.k = "bad" -> Bad(ev)
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
