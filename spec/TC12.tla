-------------------------------- MODULE TC12 --------------------------------
(* Pixels are integers or multiples of 1/den, given as numerators.            *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
RECURSIVE SseR(_, _, _, _)
SseR(r, m, i, acc) == IF i > Len(r) THEN acc ELSE SseR(r, m, i + 1, IAdd(acc, ISq(ISub(r[i], m[i]))))
Sse(ev) == SseR(ev.r, ev.m, 1, ZERO)                 \* times den^2
Near(a, b, rel, eps) == ILe(IMul(IAbs(ISub(a, b)), rel), IAdd(IAbs(b), IMul(rel, eps)))
Step0(s, ev) ==
  [st |-> IF ev.k = "psnr" /\ ev.res = "ok" THEN [grp |-> ev.grp, sse |-> Sse(ev), v |-> ev.x] ELSE s,
   fails |->
     CASE ev.k = "rmse" ->
            (* v^2 * N * den^2 = SSE; v has an absolute error of up to 10^-9 *)
            Chk(ev.res = "ok", "rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE
                  LET n == IOf(Len(ev.r) * ev.den * ev.den)
                      v == Val(ev.v)
                      slack == IMul(IAdd(IScale(IAbs(v), 2), IOf(1)), n)
                  IN Chk(ev.v.k = "n" /\ v.s >= 0 /\ Near(IMul(ISq(v), n), IMul(Sse(ev), E18), ev.rel, slack), "wrong_rmse")
                     \cup Chk(ev.v.k = "n" /\ (Sse(ev).s = 0 <=> v.s = 0), "zero_iff_identical"))
       [] ev.k = "psnr" ->
            Chk(ev.res = "ok", "rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE
                  LET sse == Sse(ev)
                      n == IOf(Len(ev.r) * ev.den * ev.den)
                  IN IF sse.s = 0 THEN Chk(ev.v.k = "inf", "identical_not_infinite")
                     ELSE Chk(ev.v.k = "n" /\ Near(IMul(Val(ev.p), sse), IMul(IMul(ISq(IOf(ev.range)), n), E9), ev.rel, sse), "wrong_psnr")
                          \cup (IF s.grp = ev.grp /\ ev.grp # 0 /\ s.v.k = "n" /\ ev.x.k = "n" THEN
                                  Chk(ILt(IScale(s.sse, 1000001), IScale(sse, 1000000)) => ILt(Val(ev.x), Val(s.v)), "psnr_did_not_decrease")
                                  \cup Chk(ILt(IScale(sse, 1000001), IScale(s.sse, 1000000)) => ILt(Val(s.v), Val(ev.x)), "psnr_did_not_increase")
                                ELSE {}))
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- [grp |-> 0, sse |-> ZERO, v |-> [k |-> "none"]], Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
