-------------------------------- MODULE TC26 --------------------------------
(* Scores of colour and grey images.                                          *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, ColourLib
VARIABLES l, st
Near(v, w) == v.k = "n" /\ CloseR(v, w, 20000, 20000)
NearOrInf(v, w) == IF w.k = "inf" THEN v.k = "inf" ELSE Near(v, w)
(* differences scored: of the luminance (times 10^4) or of the values *)
P(q, i) == <<q[3 * i - 2], q[3 * i - 1], q[3 * i]>>
Diffs(ev) == LET w == Scored(ev.shape, ev.colour)
             IN IF w = "luminance" THEN [i \in 1..(Len(ev.r) \div 3) |-> ISub(IOf(Lum(P(ev.r, i))), IOf(Lum(P(ev.m, i))))]
                ELSE [i \in 1..Len(ev.r) |-> IOf(ev.r[i] - ev.m[i])]
Scale(ev) == IF Scored(ev.shape, ev.colour) = "luminance" THEN 10000 ELSE 1
(* v^2 * N * scale^2 = sum of squares, v times 10^9 *)
Rmse(ev) ==
  LET d == Diffs(ev)
      s == ISum([i \in 1..Len(d) |-> ISq(d[i])])
      rhs == IMul(s, E18)
      lhs == IScale(ISq(Val(ev.v)), Len(d))
      lhs2 == ISq(IScale(IOf(Scale(ev)), 1))
      x == IMul(lhs, lhs2)
      e == IAbs(ISub(x, rhs))
  IN ev.v.k = "n" /\ ILe(IScale(e, 100000), IAdd(rhs, IScale(IMul(lhs2, E9), 1000)))
(* 3 * v * den = sum of the weighted channels *)
Weighted(ev) ==
  LET s == ISum([i \in 1..3 |-> IScale(Val(ev.cs[i]), ev.w[i])])
      x == IScale(Val(ev.v), 3 * ev.den)
      e == IAbs(ISub(x, s))
  IN ev.v.k = "n" /\ ILe(IScale(e, 20000), IAdd(IAbs(s), IScale(IOf(ev.den * 1000000), 20000 \div 1000)))
(* luminance images as the harness made them: samples of [p, lum (times 10^9)] *)
Made(ev) == \A i \in 1..Len(ev.px) :
  LET p == ev.px[i].p
  IN IsRatio(ev.px[i].lum, IOf(Lum(p)), IOf(10000 * ev.unit), 1000000, 10)
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "rmse" -> IF Scored(ev.shape, ev.colour) = "no" THEN Chk(ev.res = "ValueError", "grey_accepted_as_colour")
            ELSE Chk(ev.res = "ok", "rejected") \cup (IF ev.res # "ok" THEN {} ELSE Chk(Rmse(ev), "not_the_configured_colours"))
       [] ev.k = "accept" -> IF Scored(ev.shape, ev.colour) = "no" THEN Chk(ev.res = "ValueError", "grey_accepted_as_colour")
            ELSE Chk(ev.res = "ok", "rejected")
       [] ev.k = "refuse" -> Chk(ev.res = "ValueError", "invalid_accepted")
       [] ev.k = "lum" -> Chk(Made(ev), "machinery_luminance") \cup Chk(ev.res = "ok", "rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE Chk(NearOrInf(ev.v, ev.w), "not_the_score_of_the_luminance"))
       [] ev.k = "same" -> Chk(ev.res = "ok", "rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE Chk(NearOrInf(ev.v, ev.w), ev.why))
       [] ev.k = "channels" -> Chk(ev.res = "ok", "rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE Chk(Weighted(ev), "not_the_weighted_channels"))
       [] ev.k = "hue" -> Chk(ev.gres = "ok" /\ ev.cres = "ok", "rejected")
            \cup (IF ev.gres # "ok" \/ ev.cres # "ok" THEN {} ELSE
                  Chk(NearOrInf(ev.g, ev.perfect) \/ (ev.perfect.k = "inf" /\ ev.g.k = "n" /\ ILe(IScale(E9, 200), Val(ev.g))), "hue_seen_without_colour")
                  \cup Chk(ev.c.k = "n" /\ (ev.perfect.k = "inf" \/ ~CloseR(ev.c, ev.perfect, 10000, 100000))
                           /\ (ev.perfect.k = "inf" => ILe(Val(ev.c), IScale(E9, 100))), "hue_not_seen_with_colour"))
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
