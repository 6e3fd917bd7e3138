------------------------------- MODULE ViewLib -------------------------------
(* Which pixels a view shows.  Pixels are numbered from 0 in image order; the *)
(* shown picture is a sequence of rows.  off and ext give the cut-out part.   *)
EXTENDS Integers, Sequences, FiniteSets
RECURSIVE Flat(_, _, _, _)
Flat(shape, x, a, acc) == IF a > Len(shape) THEN acc ELSE Flat(shape, x, a + 1, acc * shape[a] + x[a])
PlaneAxes(nd, a) == IF nd = 2 THEN <<1, 2>> ELSE IF a = 1 THEN <<2, 3>> ELSE IF a = 2 THEN <<1, 3>> ELSE <<1, 2>>
(* pixel of the slice k of axis a at p and q of the two other axes *)
At(shape, off, a, k, p, q) ==
  LET ax == PlaneAxes(Len(shape), a)
      x == [b \in 1..Len(shape) |-> off[b] + (IF b = ax[1] THEN p ELSE IF b = ax[2] THEN q ELSE k)]
  IN Flat(shape, x, 1, 0)
(* the picture is the slice, turned or mirrored in one of the eight ways o *)
Ways == BOOLEAN \X BOOLEAN \X BOOLEAN
Pos(n, i, turn) == IF turn THEN n - i ELSE i - 1
IsWay(A, shape, off, ext, a, k, o) ==
  LET ax == PlaneAxes(Len(shape), a)
      n == IF o[1] THEN ext[ax[2]] ELSE ext[ax[1]]          \* rows
      m == IF o[1] THEN ext[ax[1]] ELSE ext[ax[2]]          \* columns
  IN /\ Len(A) = n /\ \A i \in 1..n : Len(A[i]) = m
     /\ \A i \in 1..n, j \in 1..m :
          LET u == Pos(n, i, o[2])
              v == Pos(m, j, o[3])
          IN A[i][j] = (IF o[1] THEN At(shape, off, a, k, v, u) ELSE At(shape, off, a, k, u, v))
IsSlice(A, shape, off, ext, a, k) == \E o \in Ways : IsWay(A, shape, off, ext, a, k, o)
(* pixels of the slice k of axis a which lie in slice j of axis b as well *)
Cross(shape, off, ext, a, k, b, j) ==
  LET ax == PlaneAxes(Len(shape), a) IN
  {At(shape, off, a, k, p, q) : <<p, q>> \in
     {z \in (0..(ext[ax[1]] - 1)) \X (0..(ext[ax[2]] - 1)) : (IF b = ax[1] THEN z[1] ELSE z[2]) = j}}
=============================================================================
