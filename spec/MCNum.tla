-------------------------------- MODULE MCNum --------------------------------
(* The exact arithmetic agrees with TLC's own integers where these suffice,   *)
(* and satisfies the ring laws where they do not.                             *)
EXTENDS Num
VARIABLES a, b, c
S == {-40000, -10001, -10000, -9999, -7, -1, 0, 1, 2, 9999, 10000, 12345, 39999}
L == S \cup {2147483647, -2000000011}
Init == a \in L /\ b \in L /\ c \in S
Next == UNCHANGED <<a, b, c>>
Small == (a \in S /\ b \in S) =>
           /\ IAdd(IOf(a), IOf(b)) = IOf(a + b)
           /\ ISub(IOf(a), IOf(b)) = IOf(a - b)
           /\ IMul(IOf(a), IOf(b)) = IOf(a * b)
           /\ ILe(IOf(a), IOf(b)) = (a <= b)
Ring == LET x == IOf(a) y == IOf(b) z == IOf(c) IN
          /\ IMul(x, IAdd(y, z)) = IAdd(IMul(x, y), IMul(x, z))
          /\ IMul(x, y) = IMul(y, x)
          /\ IMul(IMul(x, y), z) = IMul(x, IMul(y, z))
          /\ ISub(IAdd(x, y), y) = x
          /\ ILe(ZERO, ISq(x))
Div == LET x == IMul(IOf(a), IOf(c)) y == IOf(b) IN
         b # 0 => LET q == IDiv(x, y) r == ISub(x, IMul(q, y))
                  IN NCmp(r.d, y.d) < 0 /\ (r.s = 0 \/ r.s = x.s)
=============================================================================
