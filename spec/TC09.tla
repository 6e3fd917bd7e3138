-------------------------------- MODULE TC09 --------------------------------
(* Pixels and input range are integers (float images: multiples of 1/8, given *)
(* as numerators), so the expected value (p - lo) * R / (hi - lo) is exact.   *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
TypeOf(r) == CASE r = 1 -> "float32" [] r = 255 -> "uint8" [] r = 65535 -> "uint16" [] OTHER -> "unsupported"
(* slack in 10^-6 of a grey value, for arithmetic in single precision *)
(* out <= q + slack  and  out > q - 1 - slack *)
Floor(o, p, lo, w, r, slack) ==
  LET num == IMul(IScale(ISub(p, lo), r), E6)      \* q * w * 10^6
      s == IScale(w, slack)
      x == IMul(IMul(o, w), E6)
  IN /\ ILe(x, IAdd(num, s))
     /\ ILt(ISub(ISub(num, s), IMul(w, E6)), x)
Float(o, p, lo, w) == IsRatio(o, ISub(p, lo), w, 1000000, 1000)
MinI2(q) == LET RECURSIVE M(_, _)
                M(i, m) == IF i > Len(q) THEN m ELSE M(i + 1, IF ILt(q[i], m) THEN q[i] ELSE m)
            IN M(2, q[1])
MaxI2(q) == LET RECURSIVE M(_, _)
                M(i, m) == IF i > Len(q) THEN m ELSE M(i + 1, IF ILt(m, q[i]) THEN q[i] ELSE m)
            IN M(2, q[1])
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "norm" ->
            IF TypeOf(ev.r) = "unsupported" \/ ~ev.numeric \/ (~ev.auto /\ ~ev.given)
            THEN Chk(ev.res = "ValueError", "invalid_accepted")
            ELSE Chk(ev.res = "ok", "valid_rejected")
                 \cup (IF ev.res # "ok" THEN {} ELSE
                 LET lo == IF ev.auto THEN MinI2(ev.p) ELSE ev.lo
                     hi == IF ev.auto THEN MaxI2(ev.p) ELSE ev.hi
                     w == ISub(hi, lo)
                     kept == ev.dtype = "uint8" /\ ev.r = 255
                 IN Chk(ev.odtype = TypeOf(ev.r), "wrong_type")
                    \cup Chk(ev.shape_ok, "wrong_shape")
                    \cup Chk(Len(ev.out) = Len(ev.p), "wrong_number_of_pixels")
                    \cup (IF Len(ev.out) # Len(ev.p) THEN {} ELSE
                          IF kept THEN Chk(\A i \in 1..Len(ev.p) : IEq(Val(ev.out[i]), IMul(ev.p[i], E9)), "changed_normalised_image")
                          ELSE IF ev.r = 1 THEN Chk(\A i \in 1..Len(ev.p) : Float(ev.out[i], ev.p[i], lo, w), "not_linear")
                          ELSE Chk(\A i \in 1..Len(ev.p) : ev.out[i].k = "n" /\ Floor(ev.oi[i], ev.p[i], lo, w, ev.r, ev.slack), "not_linear")
                               \cup Chk(\A i \in 1..Len(ev.p) : (IEq(ev.p[i], lo) => ev.oi[i].s = 0)
                                                            /\ (IEq(ev.p[i], hi) => IEq(ev.oi[i], IOf(ev.r))), "ends_not_reached")))
       [] ev.k = "metric" ->
            Chk(ev.res = ev.wres, "wrong_outcome")
            \cup Chk(ev.res = "ok" /\ ev.wres = "ok" => CloseR(ev.v, ev.want, 100000, 1000), "not_the_score_of_the_normalised_images")
       [] ev.k = "ignored" -> Chk(ev.res = "ok" /\ ev.same, "changed_without_normalisation")
       [] ev.k = "reject" -> Chk(ev.res = "ValueError", "invalid_accepted")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
