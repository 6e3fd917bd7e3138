-------------------------------- MODULE TC15 --------------------------------
(* st: the centre and radius given last to the object, as far as known.       *)
(* ev.px: pixels (channels after another for colour) as exact integers.       *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, RegionLib
VARIABLES l, st
Eff(s, ev) == [c |-> IF ev.gc THEN ev.c ELSE s.c, r |-> IF ev.gr THEN ev.r ELSE s.r]
Has(s, ev) == (ev.gc \/ s.hasc) /\ (ev.gr \/ s.hasr)
(* what the luminance, chrominance and grey channels of pixel i are *)
Lin(ev, i, a, b, g) == IAdd(IScale(ev.px[1][i], a), IAdd(IScale(ev.px[2][i], b), IScale(ev.px[3][i], g)))
Mix(ev, a, b, g) == [i \in 1..Len(ev.px[1]) |-> Lin(ev, i, a, b, g)]
One(v, m, a, zero, rel) ==
  LET q == Var2(a) IN
  IF q.s = 0 THEN ~zero \/ (v.k = "n" /\ v.s = 0) ELSE IsQuot(v, m, q, rel)
Score(ev, e) ==
  LET A(px) == Acc(px, ev.shape, ev.t, e.c, e.r) IN
  IF ev.mode = "grey" THEN
    LET a == A(ev.px[1]) IN Len(ev.v) = 1 /\ One(ev.v[1], a.s, a, TRUE, ev.rel)
  ELSE IF ev.mode = "yuv" THEN
    LET y == A(Mix(ev, 21260, 71520, 7220))
        u == A(Mix(ev, -9991, -33609, 43600))
        w == A(Mix(ev, 61500, -55861, -5639))
    IN Len(ev.v) = 3 /\ One(ev.v[1], y.s, y, FALSE, ev.rel) /\ One(ev.v[2], y.s, u, FALSE, ev.rel)
       /\ One(ev.v[3], y.s, w, FALSE, ev.rel)
  ELSE
    LET g == A(Mix(ev, 2125, 7154, 721)) IN
    Len(ev.v) = 4 /\ One(ev.v[1], g.s, g, FALSE, ev.rel)
    /\ \A i \in 1..3 : LET a == A(ev.px[i]) IN One(ev.v[i + 1], a.s, a, TRUE, ev.rel)
Err(x) == x \in {"ValueError", "TypeError"}
Step0(s, ev) ==
  CASE ev.k = "new" -> [st |-> [hasc |-> FALSE, hasr |-> FALSE, c |-> <<>>, r |-> 0], fails |-> {}]
    [] ev.k = "snr" ->
        IF ~Has(s, ev) THEN [st |-> s, fails |-> Chk(ev.res = "ValueError", "no_region_accepted")]
        ELSE LET e == Eff(s, ev)
                 good == /\ ev.cint /\ ev.rint /\ Len(e.c) = Len(ev.shape) /\ e.r > 0
                         /\ Fits(ev.shape, e.c, e.r) /\ KnownType(ev.t)
             IN IF good THEN
                  [st |-> [hasc |-> TRUE, hasr |-> TRUE, c |-> e.c, r |-> e.r],
                   fails |-> Chk(ev.res = "ok", "valid_region_rejected")
                             \cup (IF ev.res = "ok" THEN Chk(Score(ev, e), "not_mean_over_deviation_of_the_region")
                                                         \cup Chk(SameV(ev.v, ev.mem), "remembered_is_not_returned")
                                   ELSE {})]
                ELSE [st |-> [hasc |-> FALSE, hasr |-> FALSE, c |-> <<>>, r |-> 0],
                      fails |-> Chk(Err(ev.res), "invalid_region_accepted")]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- [hasc |-> FALSE, hasr |-> FALSE, c |-> <<>>, r |-> 0], Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
