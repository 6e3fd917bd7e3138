------------------------------ MODULE MorphLib ------------------------------
(* Binary images as sets of pixel numbers (from 0, image order), the          *)
(* cross-shaped neighbourhood, distances to the background.                   *)
EXTENDS Integers, Sequences, FiniteSets, RegionLib
Stride(shape, a) == RProd(shape, a + 1)
Pixels(shape) == 0..(Size(shape) - 1)
At(shape, k, a) == (k \div Stride(shape, a)) % shape[a]
Up(shape, k) == {k + Stride(shape, a) : a \in {b \in 1..Len(shape) : At(shape, k, b) < shape[b] - 1}}
Down(shape, k) == {k - Stride(shape, a) : a \in {b \in 1..Len(shape) : At(shape, k, b) > 0}}
Near(shape, k) == Up(shape, k) \cup Down(shape, k)
Dilate(shape, S) == S \cup UNION {Near(shape, k) : k \in S}
(* outside of the image is background *)
Erode(shape, S) == {k \in S : Cardinality(Near(shape, k)) = 2 * Len(shape) /\ Near(shape, k) \subseteq S}
RECURSIVE DilateN(_, _, _)
DilateN(shape, S, n) == IF n = 0 THEN S ELSE DilateN(shape, Dilate(shape, S), n - 1)
RECURSIVE ErodeN(_, _, _)
ErodeN(shape, S, n) == IF n = 0 THEN S ELSE ErodeN(shape, Erode(shape, S), n - 1)
Clean(shape, S, it) == ErodeN(shape, DilateN(shape, S, it), it + 1)
PDist2(shape, j, k) == LET x == Coords(shape, j) y == Coords(shape, k) IN Dist2(x, y, Len(shape))
MinOf(T) == CHOOSE m \in T : \A n \in T : m <= n
(* the background pixel nearest to a foreground pixel touches the foreground *)
Shore(shape, E) == UNION {Near(shape, k) : k \in E} \ E
Depth2(shape, E, sh, k) == IF k \notin E THEN 0 ELSE MinOf({PDist2(shape, k, b) : b \in sh})
RECURSIVE IsqrtR(_, _)
IsqrtR(n, r) == IF (r + 1) * (r + 1) <= n THEN IsqrtR(n, r + 1) ELSE r
Isqrt(n) == IsqrtR(n, 0)
(* the deepest pixels and their depth *)
Deepest(shape, E) ==
  IF E = {} THEN [c |-> {0}, d2 |-> 0]
  ELSE LET sh == Shore(shape, E)
           f == [k \in E |-> Depth2(shape, E, sh, k)]
           m == CHOOSE v \in {f[k] : k \in E} : \A k \in E : f[k] <= v
       IN [c |-> {k \in E : f[k] = m}, d2 |-> m]
(* percentile q of the sorted pixels, times 100, by linear interpolation *)
Perc100(srt, q) ==
  LET n == Len(srt) - 1
      i == (n * q) \div 100
      f == (n * q) % 100
      lo == srt[i + 1]
      hi == IF i + 2 <= Len(srt) THEN srt[i + 2] ELSE lo
  IN 100 * lo + f * (hi - lo)
Marked(px, srt, lo, up) ==
  LET a == Perc100(srt, lo) b == Perc100(srt, up)
  IN {k \in 0..(Len(px) - 1) : 100 * px[k + 1] > a /\ 100 * px[k + 1] <= b}
=============================================================================
