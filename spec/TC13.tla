-------------------------------- MODULE TC13 --------------------------------
(* SSIM and UQI from exact window statistics.  Images are flat sequences of   *)
(* small integers; K1, K2 are given in 1/1000.                                *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
(* normalised Gaussian taps, scaled by 10^6, by ten times sigma *)
Taps(sig) == CASE sig = 5 -> <<264, 106451, 786570, 106451, 264>>
               [] sig = 8 -> <<441, 21910, 228311, 498676, 228311, 21910, 441>>
               [] sig = 10 -> <<134, 4432, 53991, 241971, 398944, 241971, 53991, 4432, 134>>
               [] sig = 18 -> <<857, 4680, 18768, 55279, 119582, 189989, 221690, 189989, 119582, 55279, 18768, 4680, 857>>
               [] sig = 20 -> <<436, 2216, 8765, 27000, 64769, 121004, 176059, 199502, 176059, 121004, 64769, 27000, 8765, 2216, 436>>
               [] sig = 25 -> <<245, 954, 3167, 8959, 21599, 44374, 77685, 115892, 147327, 159596, 147327, 115892, 77685, 44374, 21599, 8959, 3167, 954, 245>>
               [] OTHER -> <<1028, 7599, 36001, 109361, 213006, 266010, 213006, 109361, 36001, 7599, 1028>>
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
(* linear index (from 1) of origin + offset, both given as numbers in mixed radix *)
RECURSIVE Lin(_, _, _, _, _, _)
Lin(sh, e, w, o, k, a) ==
  IF a > Len(sh) THEN 0
  ELSE LET oa == (o \div Prod(e, a + 1)) % e[a]
           ka == (k \div (w ^ (Len(sh) - a))) % w
       IN (oa + ka) * Prod(sh, a + 1) + Lin(sh, e, w, o, k, a + 1)
Ext(sh, w) == [a \in 1..Len(sh) |-> sh[a] - w + 1]
G(x, y, g) == CASE g = 1 -> x [] g = 2 -> y [] g = 3 -> x * x [] g = 4 -> y * y [] OTHER -> x * y
(* the pixels of a window, as sequence of pairs *)
Win(r, m, sh, w, o) == LET e == Ext(sh, w) IN
  [k \in 1..(w ^ Len(sh)) |-> LET i == Lin(sh, e, w, o, k - 1, 1) + 1 IN <<r[i], m[i]>>]
RECURSIVE USumR(_, _, _, _)
USumR(q, g, i, acc) == IF i > Len(q) THEN acc ELSE USumR(q, g, i + 1, acc + G(q[i][1], q[i][2], g))
USums(q) == [g \in 1..5 |-> IOf(USumR(q, g, 1, 0))]
(* Gaussian: along the last axis in plain integers, then the other axes *)
RECURSIVE RowR(_, _, _, _, _, _)
RowR(q, t, g, b, j, acc) == IF j > Len(t) THEN acc
                            ELSE RowR(q, t, g, b, j + 1, acc + t[j] * G(q[b + j][1], q[b + j][2], g))
RECURSIVE ColR(_, _, _, _, _)
ColR(q, t, g, i, acc) == IF i > Len(t) THEN acc
                         ELSE ColR(q, t, g, i + 1, IAdd(acc, IScale(IOf(RowR(q, t, g, (i - 1) * Len(t), 1, 0)), t[i])))
GSums(q, t) == [g \in 1..5 |-> ColR(q, t, g, 1, ZERO)]
E12 == IMul(E6, E6)
Q(n, d) == IDiv(IMul(n, E12), d)                    \* scaled by 10^12
Fix(a, b) == IDiv(IMul(a, b), E12)
RECURSIVE FPow(_, _)
FPow(a, n) == IF n = 0 THEN E12 ELSE Fix(a, FPow(a, n - 1))
(* T total weight, fn/fd covariance normalisation *)
One(ev, s, T, fn, fd) ==
  LET c1 == IMul(ISq(T), ISq(IOf(ev.k1 * ev.range)))
      c2 == IMul(IMul(ISq(T), fd), ISq(IOf(ev.k2 * ev.range)))
      VX == ISub(IMul(T, s[3]), ISq(s[1]))
      VY == ISub(IMul(T, s[4]), ISq(s[2]))
      VXY == ISub(IMul(T, s[5]), IMul(s[1], s[2]))
      lum == Q(IAdd(IMul(IScale(IMul(s[1], s[2]), 2), E6), c1), IAdd(IMul(IAdd(ISq(s[1]), ISq(s[2])), E6), c1))
      den == IAdd(IMul(IMul(IAdd(VX, VY), fn), E6), c2)
      cov == IAdd(IMul(IMul(IScale(VXY, 2), fn), E6), c2)
      SD == IScale(VX, AbsI(ev.lin))                 \* sqrt(VX * VY) for m = lin * r + d
      dev == IAdd(IMul(IMul(IScale(SD, 2), fn), E6), c2)
      cs == IF ev.beta = ev.gamma THEN FPow(Q(cov, den), ev.beta)
            ELSE Fix(FPow(Q(dev, den), ev.beta), FPow(Q(cov, dev), ev.gamma))
  IN Fix(FPow(lum, ev.alpha), cs)
WinVal(ev, r, m, o) ==
  LET q == Win(r, m, ev.shape, ev.w, o)
      n == ev.w ^ Len(ev.shape)
  IN IF ev.gauss THEN One(ev, GSums(q, Taps(ev.sig)), E12, IOf(1), IOf(1))
     ELSE One(ev, USums(q), IOf(n), IOf(n), IOf(n - 1))
RECURSIVE MeanR(_, _, _, _, _)
MeanR(ev, r, m, o, acc) == IF o < 0 THEN acc ELSE MeanR(ev, r, m, o - 1, IAdd(acc, WinVal(ev, r, m, o)))
NWin(ev) == Prod(Ext(ev.shape, ev.w), 1)
Total(ev, r, m) == MeanR(ev, r, m, NWin(ev) - 1, ZERO)   \* sum over windows, scaled by 10^12
(* v = tot / cnt, scaled by 10^9 and 10^12 *)
Agrees(v, tot, cnt, tol9) ==
  v.k = "n" /\ ILe(IAbs(ISub(IScale(IMul(Val(v), IOf(1000)), cnt), tot)), IScale(IScale(IOf(tol9), 1000), cnt))
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "ssim" ->
            Chk(ev.res = "ok", "rejected")
            \cup Chk(ev.res = "ok" => Agrees(ev.v, Total(ev, ev.r[1], ev.m[1]), NWin(ev), ev.tol), "not_the_published_formula")
       [] ev.k = "colour" ->
            (* mean over the channels of weight (in 1/1000) times score *)
            Chk(ev.res = "ok", "rejected")
            \cup Chk(ev.res = "ok" =>
                 Agrees(ev.v,
                        ISum([c \in 1..3 |-> IScale(Total(ev, ev.r[c], ev.m[c]), ev.weights[c])]),
                        NWin(ev) * 3 * 1000, ev.tol), "not_the_weighted_channels")
       [] ev.k = "reject" -> Chk(ev.res = "ValueError", "invalid_setting_accepted")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
