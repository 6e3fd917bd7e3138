-------------------------------- MODULE TC14 --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
ONE == [k |-> "n", s |-> 1, d |-> E9.d]
NIL == [k |-> "n", s |-> 0, d |-> <<>>]
Zero == {"RMSE", "MAD"}
Swappable == {"RMSE", "PSNR", "SSIM", "UQI", "MSSSIM", "FSIM", "VSI"}
UpTo1 == {"SSIM", "UQI", "MSSSIM", "FSIM", "VSI", "GSM"}
AtOpt(n, v) == IF n = "PSNR" THEN v.k = "inf"
               ELSE IF n = "RMSE" THEN SameNum(v, NIL)
               ELSE IF n = "MAD" THEN CloseR(v, NIL, 1000000, 1000)
               ELSE CloseR(v, ONE, 100000, 10000)
(* not better than the optimum, up to rounding *)
Within(n, v) == IF n \in Zero THEN v.k = "n" /\ v.s >= 0
                ELSE IF n \in UpTo1 THEN v.k = "n" /\ ILe(Val(v), IAdd(E9, IOf(20000)))
                ELSE v.k \in {"n", "inf"}
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "self" ->
            Chk(ev.res = "ok", "identical_images_rejected")
            \cup Chk(ev.res = "ok" => AtOpt(ev.metric, ev.v), "identical_images_not_optimal")
       [] ev.k = "pair" ->
            Chk(ev.res = "ok" /\ ev.wres = "ok", "rejected")
            \cup (IF ev.res # "ok" \/ ev.wres # "ok" THEN {} ELSE
              Chk(Within(ev.metric, ev.v) /\ Within(ev.metric, ev.w), "better_than_optimal")
              \cup Chk(ev.metric \in Swappable =>
                       (ev.v.k = ev.w.k /\ (ev.v.k = "n" => CloseR(ev.v, ev.w, 50000, 20000))), "not_symmetric")
              \cup Chk(ev.differ /\ ev.metric = "PSNR" => ev.v.k = "n", "different_images_optimal")
              \cup Chk(ev.differ /\ ev.metric = "RMSE" => ev.x.k = "n" /\ ev.x.s = 1, "different_images_optimal")
              \cup Chk(ev.clearly /\ ev.metric = "SSIM" => ILt(Val(ev.v), ISub(E9, IOf(1000))), "different_images_optimal"))
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
