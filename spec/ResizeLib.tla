------------------------------ MODULE ResizeLib ------------------------------
(* Changing the size of an image of one to three axes.  Output position i of  *)
(* m lies over input position ((2i+1)n - m) / 2m of n; outside, the input is  *)
(* mirrored at its end pixels.  Values are numerators over Den(ms).           *)
EXTENDS Integers, Sequences
AbsR(x) == IF x < 0 THEN 0 - x ELSE x
Pos2(n, m, i) == (2 * i + 1) * n - m                 \* over 2m
(* mirrored into 0..n-1, over 2m *)
Mir(n, m, i) == LET x == AbsR(Pos2(n, m, i))
                    e == (n - 1) * 2 * m
                IN IF n = 1 THEN 0 ELSE IF x > e THEN 2 * e - x ELSE x
(* lower neighbour and its weight (over 2m) *)
LowN(n, m, i) == Mir(n, m, i) \div (2 * m)
Frac(n, m, i) == Mir(n, m, i) % (2 * m)
RECURSIVE RFlat(_, _, _, _)
RFlat(shape, x, a, acc) == IF a > Len(shape) THEN acc ELSE RFlat(shape, x, a + 1, acc * shape[a] + x[a])
Upper(n, k) == IF k + 1 < n THEN k + 1 ELSE k
(* linear in every axis: sum over the corners *)
RECURSIVE Lin(_, _, _, _, _, _)
Lin(img, ns, ms, out, a, x) ==
  IF a > Len(ns) THEN img[RFlat(ns, x, 1, 0) + 1]
  ELSE LET k == LowN(ns[a], ms[a], out[a])
           f == Frac(ns[a], ms[a], out[a])
       IN (2 * ms[a] - f) * Lin(img, ns, ms, out, a + 1, Append(x, k))
          + (IF f = 0 THEN 0 ELSE f * Lin(img, ns, ms, out, a + 1, Append(x, Upper(ns[a], k))))
RECURSIVE Den(_, _)
Den(ms, a) == IF a > Len(ms) THEN 1 ELSE 2 * ms[a] * Den(ms, a + 1)
Linear(img, ns, ms, out) == Lin(img, ns, ms, out, 1, <<>>)
(* nearest input pixels of output i: two if it lies between them *)
Near(n, m, i) == LET q == (2 * i + 1) * n IN
   IF q % (2 * m) = 0 THEN {q \div (2 * m), (q \div (2 * m)) - 1} ELSE {q \div (2 * m)}
NearCoords(ns, ms, out) == {x \in [1..Len(ns) -> 0..9] : \A a \in 1..Len(ns) : x[a] \in Near(ns[a], ms[a], out[a]) /\ x[a] < ns[a]}
NearVals(img, ns, ms, out) == {img[RFlat(ns, x, 1, 0) + 1] : x \in NearCoords(ns, ms, out)}
=============================================================================
