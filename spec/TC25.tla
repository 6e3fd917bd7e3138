-------------------------------- MODULE TC25 --------------------------------
(* What metrics in a run receive.  ev.img: modified image as given, ev.ref:   *)
(* reference, both flat; ev.r, ev.m: what arrived ([shape, px, dt, id]).      *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, ResizeLib
VARIABLES l, st
RECURSIVE Un(_, _, _)
Un(shape, k, a) == IF a > Len(shape) THEN <<>>
  ELSE LET RECURSIVE P(_) P(b) == IF b > Len(shape) THEN 1 ELSE shape[b] * P(b + 1)
       IN <<(k \div P(a + 1)) % shape[a]>> \o Un(shape, k, a + 1)
(* position in the uncut image of the k-th arriving pixel *)
Where(ev, k) == LET x == Un(ev.ext, k, 1) IN [a \in 1..Len(ev.ext) |-> x[a] + ev.off[a]]
CutR(ev) == /\ ev.r.shape = ev.ext /\ ev.r.dt = ev.dtr
            /\ \A k \in 1..Len(ev.r.px) : ev.r.px[k] = ev.ref[RFlat(ev.rs, Where(ev, k - 1), 1, 0) + 1]
Form(ev) == ev.m.shape = ev.ext /\ ev.m.dt = ev.dtr
Untouched(ev) == \A k \in 1..Len(ev.m.px) : ev.m.px[k] = ev.img[RFlat(ev.rs, Where(ev, k - 1), 1, 0) + 1]
F == 1000
IsLin(ev, k) ==
  LET num == Linear(ev.raw, ev.is, ev.rs, Where(ev, k - 1))
      den == Den(ev.rs, 1)
      v == ev.m.px[k]
  IN IF ev.int THEN v * den <= num /\ num <= (v + 1) * den
     ELSE AbsI(v * den - F * num) <= den
IsNear(ev, k) == \E q \in NearVals(ev.raw, ev.is, ev.rs, Where(ev, k - 1)) : ev.m.px[k] = (IF ev.int THEN q ELSE F * q)
Lowest(q) == CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : v <= q[i]
Highest(q) == CHOOSE v \in {q[i] : i \in 1..Len(q)} : \A i \in 1..Len(q) : v >= q[i]
InRange(ev) == LET a == Lowest(ev.img)
                   b == Highest(ev.img)
               IN \A k \in 1..Len(ev.m.px) : a - 1 <= ev.m.px[k] /\ ev.m.px[k] <= b + 1
Library(ev) == \A k \in 1..Len(ev.m.px) : AbsI(ev.m.px[k] - ev.lib[RFlat(ev.rs, Where(ev, k - 1), 1, 0) + 1]) <= (IF ev.int THEN 0 ELSE 1)
Up(ev) == \A a \in 1..Len(ev.rs) : ev.rs[a] >= ev.is[a]
Step0(s, ev) ==
  CASE ev.k = "run" -> [st |-> s, fails |->
        IF ev.res # "ok" THEN {"run_rejected"}
        ELSE Chk(CutR(ev), "reference_changed") \cup Chk(Form(ev), "modified_has_wrong_shape_or_type")
             \cup (IF ~Form(ev) THEN {}
                   ELSE IF ev.is = ev.rs THEN Chk(Untouched(ev), "same_size_changed")
                   ELSE Chk(InRange(ev), "range_not_preserved")
                        \cup Chk(Library(ev), "not_the_interpolated_image")
                        \cup (IF ev.order = 0 /\ (ev.int \/ Up(ev)) THEN Chk(\A k \in 1..Len(ev.m.px) : IsNear(ev, k), "not_the_nearest_pixels")
                              ELSE IF ev.order = 1 /\ Up(ev) THEN Chk(\A k \in 1..Len(ev.m.px) : IsLin(ev, k), "not_linear_between_pixels")
                              ELSE {}))]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
