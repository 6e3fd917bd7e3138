-------------------------------- MODULE TC22 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, RegionLib, ArithLib, SequencesExt
VARIABLES l, st
(* ---- operations on shared memory ---- *)
SameBufs(a, b) == \A i \in 1..3 : a[i] = b[i]
DoOp(s, ev) ==
  LET nb == After(s.bufs, s.perm, ev, s.mod)
      r == IF ev.kind \in {"set", "at"} THEN <<>>
           ELSE IF ev.kind = "out" THEN Masked(Read(s.bufs, s.perm, ev.o, 0), Result(s.bufs, s.perm, ev, s.mod), ev.w)
           ELSE Result(s.bufs, s.perm, ev, s.mod)
  IN [st |-> [s EXCEPT !.bufs = nb],
      fails |-> Chk(ev.res = "ok", "operation_rejected")
        \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(SameBufs(ev.bufs, nb), "arrays_differ")
              \cup Chk(ev.r = r, "wrong_result")
              \cup Chk(ev.kind \in {"set", "at"} \/ ev.img = ResImg(ev), "wrong_class")
              \cup Chk(ev.kind = "new" => ev.fresh, "result_shares_memory")
              \cup Chk(ev.kind = "out" => ev.iso, "not_the_output_array"))]
(* reductions: sums and extrema over all or one axis of shape <<h, w>> *)
Fold(op, q) == IF op = "sum" THEN Sum(q)
               ELSE IF op = "max" THEN CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] <= v
               ELSE CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : q[i] >= v
RedOf(op, q, h, w, ax) ==
  CASE ax = 0 -> [j \in 1..w |-> Fold(op, [i \in 1..h |-> q[(i - 1) * w + j]])]
    [] ax = 1 -> [i \in 1..h |-> Fold(op, [j \in 1..w |-> q[(i - 1) * w + j]])]
    [] OTHER -> <<Fold(op, q)>>
Red(s, ev) == [st |-> s,
  fails |-> Chk(SameBufs(ev.bufs, s.bufs), "arrays_differ")
            \cup Chk(ev.r = RedOf(ev.op, Read(s.bufs, s.perm, ev.x, 0), s.h, s.w, ev.ax), "wrong_result")]
(* ---- any operation on images and on plain arrays ---- *)
Twin(ev) == Chk(ev.a.res = ev.b.res, "other_outcome")
            \cup Chk(ev.a.val = ev.b.val, "other_values")
            \cup Chk(ev.a.shape = ev.b.shape, "other_shape")
            \cup Chk(ev.a.dtype = ev.b.dtype, "other_type")
            \cup Chk(ev.a.args = ev.b.args, "other_arguments")
            \cup Chk(ev.elementwise /\ ev.a.res = "ok" => ev.img, "wrong_class")
(* ---- statistics; pixels are integers over den ---- *)
RECURSIVE PowR(_, _, _, _, _)
PowR(q, N, S, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET x == IOf(N * q[k] - S) y == ISq(x)
       IN PowR(q, N, S, k + 1, [d2 |-> IAdd(acc.d2, y), d3 |-> IAdd(acc.d3, IMul(x, y)), d4 |-> IAdd(acc.d4, ISq(y))])
Moments(q) == PowR(q, Len(q), Sum(q), 1, [d2 |-> ZERO, d3 |-> ZERO, d4 |-> ZERO])
IsRat(v, n, d) == IsRatio(v, IOf(n), IOf(d), 100000, 10)
Med2(srt) == LET n == Len(srt) IN
  IF n % 2 = 1 THEN 2 * srt[(n + 1) \div 2] ELSE srt[n \div 2] + srt[n \div 2 + 1]
Below(q, lo, R, B, k, strict) ==       \* pixels below edge k of B bins
  Cardinality({i \in 1..Len(q) : IF strict THEN (q[i] - lo) * B < k * R ELSE (q[i] - lo) * B <= k * R})
RECURSIVE Upto(_, _, _)
Upto(h, k, j) == IF j > Len(h) THEN 0 ELSE (IF h[j].i < k THEN h[j].c ELSE 0) + Upto(h, k, j + 1)
Hist(ev, srt) ==
  LET lo == srt[1] hi == srt[Len(srt)] R == hi - lo B == ev.bins n == Len(srt) IN
  Chk(B = ev.want, "wrong_number_of_bins")
  \cup Chk(Upto(ev.hist, B, 1) = n, "histogram_loses_pixels")
  \cup (IF R = 0 THEN Chk(ev.hist = <<[i |-> B \div 2, c |-> n]>>, "wrong_histogram")
        ELSE Chk(IsRat(ev.first, lo, ev.den) /\ IsRat(ev.last, hi, ev.den), "wrong_histogram_range")
             \cup Chk(\A j \in 1..Len(ev.hist) : \A k \in {ev.hist[j].i, ev.hist[j].i + 1} :
                        k >= B \/ (Below(srt, lo, R, B, k, TRUE) <= Upto(ev.hist, k, 1)
                                   /\ Upto(ev.hist, k, 1) <= Below(srt, lo, R, B, k, FALSE)), "wrong_histogram"))
Stat(ev) ==
  LET q == ev.px n == Len(q) M == Moments(q)
      srt == SortSeq(q, LAMBDA x, y : x < y)
      n2 == IMul(IOf(n), ISq(IOf(ev.den)))
  IN Chk(IsRat(ev.mean, Sum(q), n * ev.den), "wrong_mean")
     \cup Chk(IsRat(ev.median, Med2(srt), 2 * ev.den), "wrong_median")
     \cup Chk(IsRatio(ev.var, M.d2, IMul(n2, ISq(IOf(n))), 100000, 10), "wrong_variance")
     \cup Chk(IF M.d2.s = 0 THEN ev.std.k = "n" /\ ev.std.s = 0
              ELSE IsQuot(ev.std, M.d2, IMul(M.d2, IMul(n2, ISq(IOf(n)))), 100000), "wrong_standard_deviation")
     \cup (IF M.d2.s = 0 THEN {} ELSE
           Chk(IsQuot(ev.skew, IScale(M.d3, n), IScale(IMul(M.d2, ISq(M.d2)), n), 10000), "wrong_skewness")
           \cup Chk(IsRatio(ev.kurt, ISub(IScale(M.d4, n), IScale(ISq(M.d2), 3)), ISq(M.d2), 10000, 10000), "wrong_kurtosis"))
     \cup Chk(IsRat(ev.min, srt[1], ev.den), "wrong_minimum")
     \cup Chk(IsRat(ev.max, srt[n], ev.den), "wrong_maximum")
     \cup Hist(ev, srt)
     \cup Chk(ev.same, "image_changed")
St0 == [bufs |-> <<<<0>>, <<0>>, <<0>>>>, perm |-> <<1>>, mod |-> 0, h |-> 1, w |-> 1]
Step0(s, ev) ==
  CASE ev.k = "new" -> [st |-> [bufs |-> ev.bufs, perm |-> ev.perm, mod |-> ev.mod, h |-> ev.h, w |-> ev.w], fails |-> {}]
    [] ev.k = "op" -> DoOp(s, ev)
    [] ev.k = "red" -> Red(s, ev)
    [] ev.k = "twin" -> [st |-> s, fails |-> Twin(ev)]
    [] ev.k = "outs" -> [st |-> s, fails |-> Chk(ev.b.res = ev.a.res, "fails_unlike_arrays")
                         \cup Chk(ev.b.out = ev.a.out, "out_not_filled")
                         \cup Chk(ev.b.is = ev.a.is, "does_not_return_out")
                         \cup Chk(ev.b.ret = ev.a.ret, "wrong_value")
                         \cup Chk(ev.args, "argument_changed")]
    [] ev.k = "stat" -> [st |-> s, fails |-> Stat(ev)]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- St0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
