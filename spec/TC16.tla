-------------------------------- MODULE TC16 --------------------------------
(* st: the centres and radius given last to the object, as far as known.      *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, RegionLib
VARIABLES l, st
S0 == [hasc |-> FALSE, hasb |-> FALSE, hasr |-> FALSE, c |-> <<>>, b |-> <<>>, r |-> 0]
Eff(s, ev) == [c |-> IF ev.gc THEN ev.c ELSE s.c, b |-> IF ev.gb THEN ev.b ELSE s.b,
               r |-> IF ev.gr THEN ev.r ELSE s.r]
Has(s, ev) == (ev.gc \/ s.hasc) /\ (ev.gb \/ s.hasb) /\ (ev.gr \/ s.hasr)
Score(ev, e) ==
  LET sg == Acc(ev.px[1], ev.shape, ev.t, e.c, e.r)
      bg == Acc(ev.px[1], ev.shape, ev.t, e.b, e.r)
      d == Var2(bg)
  IN Len(ev.v) = 1 /\
     IF d.s = 0 THEN ev.v[1].k = "n" /\ ev.v[1].s = 0
     ELSE IsQuot(ev.v[1], ISub(IScale(sg.s, bg.n), IScale(bg.s, sg.n)), IScale(IScale(d, sg.n), sg.n), ev.rel)
Err(x) == x \in {"ValueError", "TypeError"}
Step0(s, ev) ==
  CASE ev.k = "new" -> [st |-> S0, fails |-> {}]
    [] ev.k = "cnr" ->
        IF ~Has(s, ev) THEN [st |-> s, fails |-> Chk(ev.res = "ValueError", "no_region_accepted")]
        ELSE LET e == Eff(s, ev)
                 good == /\ ev.cint /\ ev.rint /\ Len(e.c) = Len(ev.shape) /\ Len(e.b) = Len(ev.shape)
                         /\ e.r > 0 /\ Fits(ev.shape, e.c, e.r) /\ Fits(ev.shape, e.b, e.r) /\ KnownType(ev.t)
             IN IF good THEN
                  [st |-> [hasc |-> TRUE, hasb |-> TRUE, hasr |-> TRUE, c |-> e.c, b |-> e.b, r |-> e.r],
                   fails |-> Chk(ev.res = "ok", "valid_region_rejected")
                             \cup (IF ev.res = "ok" THEN Chk(Score(ev, e), "not_the_contrast_over_noise_of_the_regions")
                                                         \cup Chk(SameV(ev.v, ev.mem), "remembered_is_not_returned")
                                   ELSE {})]
                ELSE [st |-> S0, fails |-> Chk(Err(ev.res), "invalid_region_accepted")]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- S0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
