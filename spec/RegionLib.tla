----------------------------- MODULE RegionLib ------------------------------
(* Regions around a centre, on images of two or three axes, and the sums over *)
(* the pixels of a region.  Pixels are numbered from 0 in image order.        *)
EXTENDS Integers, Sequences, Num
RECURSIVE RProd(_, _)
RProd(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * RProd(q, i + 1)
Size(shape) == RProd(shape, 1)
Coords(shape, k) == [a \in 1..Len(shape) |-> (k \div RProd(shape, a + 1)) % shape[a]]
Sq(x) == x * x
RECURSIVE Dist2(_, _, _)
Dist2(c, x, a) == IF a = 0 THEN 0 ELSE Sq(x[a] - c[a]) + Dist2(c, x, a - 1)
Cubic(t) == t \in {"cubic", "cube", "square"}
Ball(t) == t \in {"spherical", "sphere", "circle"}
Entire(t) == t \in {"full", "original"}
InRegion(t, c, r, x) ==
  CASE Cubic(t) -> \A a \in DOMAIN x : c[a] - r <= x[a] /\ x[a] < c[a] + r
    [] Ball(t) -> Dist2(c, x, Len(x)) <= r * r
    [] OTHER -> TRUE
(* the region does not leave the image *)
Fits(shape, c, r) == \A a \in 1..Len(shape) : c[a] - r >= 0 /\ c[a] + r <= shape[a]
KnownType(t) == Cubic(t) \/ Ball(t) \/ Entire(t)
(* number, sum and sum of squares of the pixels px[1..] inside the region     *)
RECURSIVE AccR(_, _, _, _, _, _, _)
AccR(px, shape, t, c, r, k, acc) ==
  IF k > Len(px) THEN acc
  ELSE IF InRegion(t, c, r, Coords(shape, k - 1))
       THEN AccR(px, shape, t, c, r, k + 1,
                 [n |-> acc.n + 1, s |-> IAdd(acc.s, px[k]), q |-> IAdd(acc.q, ISq(px[k]))])
       ELSE AccR(px, shape, t, c, r, k + 1, acc)
Acc(px, shape, t, c, r) == AccR(px, shape, t, c, r, 1, [n |-> 0, s |-> ZERO, q |-> ZERO])
(* n^2 times the population variance *)
Var2(a) == ISub(IMul(IOf(a.n), a.q), ISq(a.s))
SameV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameNum(a[i], b[i])
(* the observed v (scaled by 10^9) is m / sqrt(d) for integers m and d > 0, *)
(* up to one part in rel                                                      *)
IsQuot(v, m, d, rel) ==
  /\ v.k = "n"
  /\ v.s = m.s \/ IAbs(Val(v)).d = <<>>
  /\ LET lhs == IMul(ISq(Val(v)), d)
         rhs == IMul(ISq(m), E18)
         slack == IMul(IAdd(IScale(IAbs(Val(v)), 2), IOf(2)), d)
     IN ILe(IScale(IAbs(ISub(lhs, rhs)), rel), IAdd(rhs, IScale(slack, rel)))
=============================================================================
