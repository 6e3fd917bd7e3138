------------------------------ MODULE ArithLib ------------------------------
(* Image objects and plain arrays on shared memory.  bufs maps the buffers    *)
(* 1..3 to sequences of integers; the objects are                             *)
(*   A  image, buffer 1        V  image, the same buffer seen through perm     *)
(*   P  plain array, buffer 2  B  image, buffer 3                              *)
(*   S  a number                                                              *)
(* mod = 0: unbounded integers, otherwise values wrap around.                 *)
EXTENDS Integers, Sequences
IsImg(x) == x \in {"A", "V", "B"}
BufOf(x) == CASE x \in {"A", "V"} -> 1 [] x = "P" -> 2 [] OTHER -> 3
Read(bufs, perm, x, s) ==
  CASE x = "S" -> [i \in 1..Len(bufs[1]) |-> s]
    [] x = "V" -> [i \in 1..Len(bufs[1]) |-> bufs[1][perm[i]]]
    [] OTHER -> bufs[BufOf(x)]
Write(bufs, perm, x, q) ==
  [bufs EXCEPT ![BufOf(x)] =
     IF x = "V" THEN [i \in 1..Len(q) |-> q[CHOOSE j \in 1..Len(q) : perm[j] = i]] ELSE q]
Wrap(v, mod) == IF mod = 0 THEN v ELSE v % mod
B2I(b) == IF b THEN 1 ELSE 0
Op(op, a, b, mod) ==
  CASE op = "add" -> Wrap(a + b, mod)
    [] op = "subtract" -> Wrap(a - b, mod)
    [] op = "multiply" -> Wrap(a * b, mod)
    [] op = "maximum" -> IF a >= b THEN a ELSE b
    [] op = "minimum" -> IF a <= b THEN a ELSE b
    [] op = "floor_divide" -> a \div b
    [] op = "remainder" -> a % b
    [] op = "equal" -> B2I(a = b)
    [] op = "not_equal" -> B2I(a # b)
    [] op = "less" -> B2I(a < b)
    [] op = "less_equal" -> B2I(a <= b)
    [] op = "greater" -> B2I(a > b)
    [] op = "greater_equal" -> B2I(a >= b)
    [] op = "negative" -> Wrap(0 - a, mod)
    [] op = "absolute" -> IF a < 0 THEN 0 - a ELSE a
    [] OTHER -> a
Each(op, p, q, mod) == [i \in 1..Len(p) |-> Op(op, p[i], q[i], mod)]
Masked(old, new, w) == [i \in 1..Len(old) |-> IF w = <<>> \/ w[i] = 1 THEN new[i] ELSE old[i]]
RECURSIVE AtR(_, _, _, _, _, _)
AtR(op, q, idx, v, k, mod) ==
  IF k > Len(idx) THEN q ELSE AtR(op, [q EXCEPT ![idx[k]] = Op(op, @, v, mod)], idx, v, k + 1, mod)
(* kinds: new (fresh result), out (into object o), in (x op= y), set, at *)
After(bufs, perm, e, mod) ==
  LET p == Read(bufs, perm, e.x, e.sv) q == Read(bufs, perm, e.y, e.sv)
      r == Each(e.op, p, q, mod)
  IN CASE e.kind = "out" -> Write(bufs, perm, e.o, Masked(Read(bufs, perm, e.o, 0), r, e.w))
       [] e.kind = "in" -> Write(bufs, perm, e.x, r)
       [] e.kind = "set" -> Write(bufs, perm, e.x, [p EXCEPT ![e.idx[1]] = e.sv])
       [] e.kind = "at" -> Write(bufs, perm, e.x, AtR(e.op, p, e.idx, e.sv, 1, mod))
       [] OTHER -> bufs
Result(bufs, perm, e, mod) ==
  LET p == Read(bufs, perm, e.x, e.sv) q == Read(bufs, perm, e.y, e.sv) IN Each(e.op, p, q, mod)
(* class of the result *)
ResImg(e) == CASE e.kind = "out" -> IsImg(e.o) [] e.kind = "in" -> IsImg(e.x) [] OTHER -> IsImg(e.x) \/ IsImg(e.y)
=============================================================================
