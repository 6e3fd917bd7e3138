-------------------------------- MODULE TC27 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, KernelLib
VARIABLES l, st
KOk(ev) == LET k == Kernels[ev.name] IN ev.shape = [a \in 1..k.n |-> Edge(k)] /\ ev.px = Flat(k)
(* filtering: out times the number of kernel entries is the sum of |kernel * image| *)
KIx(ev, o) == LET e == ev.ks
                  h == e \div 2
                  RECURSIVE F(_, _)
                  F(a, acc) == IF a > Len(o) THEN acc ELSE F(a + 1, acc * e + o[a] + h)
              IN F(1, 0) + 1
KVal(ev, o) == IF ev.conv THEN ev.kernel[KIx(ev, [a \in 1..Len(o) |-> -o[a]])] ELSE ev.kernel[KIx(ev, o)]
RECURSIVE WinR(_, _, _, _)
WinR(ev, x, os, acc) ==
  IF os = <<>> THEN acc
  ELSE WinR(ev, x, Tail(os), acc + AbsI(KVal(ev, os[1]) * Pixel(ev.img, ev.shape, Plus(x, os[1]), ev.mode, ev.value)))
Offs(ev) == Seq1([1..Len(ev.shape) -> (0 - (ev.ks \div 2))..(ev.ks \div 2)])
RECURSIVE Pw(_, _)
Pw(b, n) == IF n = 0 THEN 1 ELSE b * Pw(b, n - 1)
FOk(ev) == LET os == Offs(ev) IN
  \A i \in 1..Len(ev.img) :
    IsRatio(ev.out[i], IOf(WinR(ev, Coord(ev.shape, i - 1, Len(ev.shape)), os, 0)), IOf(Pw(ev.ks, Len(ev.shape))), 1000000, 10)
(* gradient similarity times 10^12 of one pixel *)
E12 == IMul(E6, E6)
Q(ev, A, B, df) ==
  LET D2 == ISq(IOf(ev.range))
      t == IAdd(IMul(IScale(D2, ev.pd), B),
                IScale(ISub(IMul(ISub(D2, IOf(df * df)), B), IMul(A, D2)), ev.pn))
  IN IDiv(IMul(IMul(A, t), E12), IMul(IMul(B, B), IScale(D2, ev.pd)))
GsmOk(ev) ==
  LET br == Best(ev.r, ev.shape)
      bm == Best(ev.m, ev.shape)
      g == IF br.s >= bm.s THEN br.g ELSE bm.g
      G == MaxI(MaxAbs(br.g, 1, 0), MaxAbs(bm.g, 1, 0))
      one == IOf(1)
      used == IF G = 0 THEN 1..Len(ev.r) ELSE {i \in 1..Len(ev.r) : g[i] # 0}
      S(i) == LET gr == IOf(br.g[i])
                  gm == IOf(bm.g[i])
                  gg == IOf(g[i])
                  e == ISub(gg, IAbs(ISub(gr, gm)))
                  k == IScale(ISq(gg), ev.c)
                  A == IAdd(IScale(IMul(IMul(IOf(2), e), gg), G), k)
                  B == IAdd(IScale(IAdd(ISq(gg), ISq(e)), G), k)
              IN IF G = 0 THEN Q(ev, one, one, ev.r[i] - ev.m[i]) ELSE Q(ev, A, B, ev.r[i] - ev.m[i])
      RECURSIVE T(_, _)
      T(i, acc) == IF i > Len(ev.r) THEN acc ELSE T(i + 1, IF i \in used THEN IAdd(acc, S(i)) ELSE acc)
      sum == T(1, ZERO)
      v == IScale(IMul(Val(ev.v), IOf(1000)), Cardinality(used))
      d == IAbs(ISub(sum, v))
  IN ev.v.k = "n" /\ ILe(d, IScale(IOf(1000000), Cardinality(used)))           \* 10^-6
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "kernel" -> Chk(ev.res = "ok", "kernel_missing") \cup (IF ev.res # "ok" THEN {} ELSE Chk(KOk(ev), "not_the_documented_kernel"))
       [] ev.k = "filter" -> Chk(ev.res = "ok", "filter_rejected")
            \cup (IF ev.res # "ok" THEN {} ELSE Chk(ev.oshape = ev.shape, "wrong_shape") \cup
                  (IF ev.oshape # ev.shape THEN {} ELSE Chk(FOk(ev), "not_the_filtered_image")))
       [] ev.k = "gsm" -> Chk(ev.res = "ok", "rejected") \cup (IF ev.res # "ok" THEN {} ELSE Chk(GsmOk(ev), "not_the_gradient_similarity"))
       [] ev.k = "shift" -> Chk(ev.res = "ok" /\ CloseR(ev.v, ev.w, 1000000, 1000), "constant_changes_similarity")
       [] ev.k = "refuse" -> Chk(ev.res = "ValueError", "invalid_accepted")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
