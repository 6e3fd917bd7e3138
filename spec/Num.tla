-------------------------------- MODULE Num --------------------------------
(* Exact arithmetic for TLC, whose integers have 32 bits.                     *)
(* A natural number is a little-endian sequence of base-10^4 digits without   *)
(* trailing zero digits; an integer is [s |-> -1|0|1, d |-> natural].         *)
(* A number observed in the code (a Python float or int) is written by the    *)
(* harness as [k |-> "n", s |-> sign, d |-> digits of round(|v| * 10^9)], or  *)
(* as [k |-> "inf" | "-inf" | "nan" | "none" | "other"].                      *)
EXTENDS Integers, Sequences, TLC

BASE == 10000

RECURSIVE NStrip(_)
NStrip(d) == IF d = <<>> THEN <<>>
             ELSE IF d[Len(d)] = 0 THEN NStrip(SubSeq(d, 1, Len(d) - 1)) ELSE d

RECURSIVE NOf(_)
NOf(n) == IF n = 0 THEN <<>> ELSE <<n % BASE>> \o NOf(n \div BASE)

Dig(d, i) == IF i >= 1 /\ i <= Len(d) THEN d[i] ELSE 0
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a

RECURSIVE NAddR(_, _, _, _, _)
NAddR(a, b, i, c, acc) ==
  IF i > Len(a) /\ i > Len(b) THEN IF c = 0 THEN acc ELSE Append(acc, c)
  ELSE LET s == Dig(a, i) + Dig(b, i) + c
       IN NAddR(a, b, i + 1, s \div BASE, Append(acc, s % BASE))
NAdd(a, b) == IF a = <<>> THEN b ELSE IF b = <<>> THEN a ELSE NAddR(a, b, 1, 0, <<>>)

RECURSIVE NSubR(_, _, _, _, _)
NSubR(a, b, i, c, acc) ==
  IF i > Len(a) THEN acc
  ELSE LET s == a[i] - Dig(b, i) - c
       IN IF s < 0 THEN NSubR(a, b, i + 1, 1, Append(acc, s + BASE))
          ELSE NSubR(a, b, i + 1, 0, Append(acc, s))
NSub(a, b) == NStrip(NSubR(a, b, 1, 0, <<>>))        \* requires a >= b

RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] < b[i] THEN -1
                  ELSE IF a[i] > b[i] THEN 1 ELSE NCmpR(a, b, i - 1)
NCmp(a, b) == IF Len(a) < Len(b) THEN -1
              ELSE IF Len(a) > Len(b) THEN 1 ELSE NCmpR(a, b, Len(a))

RECURSIVE NColR(_, _, _, _, _)
NColR(a, b, k, i, s) ==                        \* sum of a[i] * b[k - i]
  IF i > Len(a) \/ i >= k THEN s
  ELSE NColR(a, b, k, i + 1, s + a[i] * Dig(b, k - i))
RECURSIVE NMulR(_, _, _, _, _)
NMulR(a, b, k, c, acc) ==
  IF k > Len(a) + Len(b) + 1 THEN acc
  ELSE LET col == NColR(a, b, k, MaxI(1, k - Len(b)), 0) + c
       IN NMulR(a, b, k + 1, col \div BASE, Append(acc, col % BASE))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NStrip(NMulR(a, b, 2, 0, <<>>))

ZERO == [s |-> 0, d |-> <<>>]
IOf(n) == IF n = 0 THEN ZERO ELSE [s |-> IF n < 0 THEN -1 ELSE 1, d |-> NOf(AbsI(n))]
INeg(a) == [s |-> -a.s, d |-> a.d]
IAbs(a) == [s |-> a.s * a.s, d |-> a.d]
IAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN [s |-> a.s, d |-> NAdd(a.d, b.d)]
  ELSE LET c == NCmp(a.d, b.d) IN
       IF c = 0 THEN ZERO
       ELSE IF c > 0 THEN [s |-> a.s, d |-> NSub(a.d, b.d)]
       ELSE [s |-> b.s, d |-> NSub(b.d, a.d)]
ISub(a, b) == IAdd(a, INeg(b))
IMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN ZERO ELSE [s |-> a.s * b.s, d |-> NMul(a.d, b.d)]
ISq(a) == IMul(a, a)
ICmp(a, b) == LET c == ISub(a, b) IN c.s
ILe(a, b) == ICmp(a, b) <= 0
ILt(a, b) == ICmp(a, b) < 0
IEq(a, b) == a.s = b.s /\ a.d = b.d
IScale(a, n) == IMul(a, IOf(n))

RECURSIVE ISumR(_, _, _)
ISumR(q, i, acc) == IF i > Len(q) THEN acc ELSE ISumR(q, i + 1, IAdd(acc, q[i]))
ISum(q) == ISumR(q, 1, ZERO)

RECURSIVE SumR(_, _, _)
SumR(q, i, acc) == IF i > Len(q) THEN acc ELSE SumR(q, i + 1, acc + q[i])
Sum(q) == SumR(q, 1, 0)

RECURSIVE IPow10(_)
IPow10(n) == IF n = 0 THEN IOf(1) ELSE IF n >= 4 THEN IMul(IOf(10000), IPow10(n - 4))
             ELSE IMul(IOf(10), IPow10(n - 1))
E4 == IOf(10000)
E6 == IOf(1000000)
E9 == IOf(1000000000)
E18 == IMul(E9, E9)

(* observed numbers *)
IsNum(v) == v.k = "n"
Val(v) == [s |-> v.s, d |-> v.d]                    \* scaled by 10^9

(* |a - b| <= |b| / rel + abs9 / 10^9 *)
CloseR(a, b, rel, abs9) ==
  IF a.k # "n" \/ b.k # "n" THEN a.k = b.k /\ a.k # "nan"
  ELSE LET d == IAbs(ISub(Val(a), Val(b)))
       IN ILe(IScale(d, rel), IAdd(IAbs(Val(b)), IScale(IOf(abs9), rel)))
Close(a, b) == CloseR(a, b, 1000000, 100)
SameNum(a, b) == a.k = b.k /\ (a.k = "n" => IEq(Val(a), Val(b)))

(* the observed number v (scaled 10^9) equals num/den (big integers, den > 0) *)
(* up to 1/rel relative and abs9 * 10^-9 absolute                             *)
IsRatio(v, num, den, rel, abs9) ==
  v.k = "n" /\
  LET lhs == IMul(Val(v), den)
      rhs == IMul(num, E9)
      d == IAbs(ISub(lhs, rhs))
  IN ILe(IScale(d, rel), IAdd(IAbs(rhs), IMul(IScale(IOf(abs9), rel), den)))

(* floor of the quotient of naturals, digit by digit *)
RECURSIVE QDig(_, _, _, _)
QDig(b, rem, lo, hi) ==              \* largest q in lo..hi with b * q <= rem
  IF lo = hi THEN lo
  ELSE LET mid == (lo + hi + 1) \div 2
       IN IF NCmp(NMul(b, NOf(mid)), rem) <= 0 THEN QDig(b, rem, mid, hi) ELSE QDig(b, rem, lo, mid - 1)
RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, b, i, rem, acc) ==
  IF i = 0 THEN NStrip(acc)
  ELSE LET r1 == NStrip(<<a[i]>> \o rem)
           q == IF NCmp(r1, b) < 0 THEN 0 ELSE QDig(b, r1, 1, BASE - 1)
       IN NDivR(a, b, i - 1, IF q = 0 THEN r1 ELSE NSub(r1, NMul(b, NOf(q))), <<q>> \o acc)
NDiv(a, b) == NDivR(a, b, Len(a), <<>>, <<>>)
(* quotient of integers rounded towards zero, b # 0 *)
IDiv(a, b) == LET q == NDiv(a.d, b.d) IN IF q = <<>> THEN ZERO ELSE [s |-> a.s * b.s, d |-> q]
RECURSIVE IPow(_, _)
IPow(a, n) == IF n = 0 THEN IOf(1) ELSE IMul(a, IPow(a, n - 1))

Chk(c, name) == IF c THEN {} ELSE {name}
=============================================================================
