-------------------------------- MODULE TC10 --------------------------------
(* Pixels carry their position: pixel (i1, .., id), channel c of an image of  *)
(* shape s holds ((i1 * s2 + i2) * s3 + ..) * channels + c + base.            *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
RECURSIVE Prod(_, _)
Prod(q, i) == IF i > Len(q) THEN 1 ELSE q[i] * Prod(q, i + 1)
(* index on axis a (1..d) of the k-th (from 0) pixel of an array of shape e *)
Coord(e, a, k) == (k \div Prod(e, a + 1)) % e[a]
RECURSIVE LinR(_, _, _, _, _)
LinR(s, e, lo, k, a) == IF a > Len(s) THEN 0
                        ELSE (lo[a] + Coord(e, a, k)) * Prod(s, a + 1) + LinR(s, e, lo, k, a + 1)
Ext(ev) == [a \in 1..Len(ev.shape) |-> ev.hi[a] - ev.lo[a]]
Valid(ev) == /\ Len(ev.lo) = Len(ev.shape)
             /\ \A a \in 1..Len(ev.shape) : ev.lo[a] >= 0 /\ ev.lo[a] < ev.hi[a] /\ ev.hi[a] <= ev.shape[a]
TooBig(ev) == \/ Len(ev.lo) # Len(ev.shape)
              \/ \E a \in 1..Len(ev.shape) : ev.hi[a] - ev.lo[a] > ev.shape[a]
Eq1(a, b) == a.k = b.k /\ (a.k = "n" => CloseR(a, b, 100000, 1000))
EqV(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq1(a[i], b[i])
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "crop" ->
            IF TooBig(ev) THEN Chk(ev.res = "ValueError", "too_large_accepted")
            ELSE IF ~Valid(ev) THEN {"machinery_bad_region"}
            ELSE Chk(ev.res = "ok", "region_rejected")
                 \cup (IF ev.res # "ok" THEN {} ELSE
                   LET e == Ext(ev)
                       ch == ev.channels
                       want == IF ch > 1 THEN e \o <<ch>> ELSE e
                   IN Chk(ev.oshape = want, "wrong_shape")
                      \cup Chk(ev.odtype = ev.dtype, "wrong_type")
                      \cup (IF ev.oshape # want THEN {} ELSE
                            Chk(\A i \in 0..(Len(ev.out) - 1) :
                                  ev.out[i + 1] = LinR(ev.shape, e, ev.lo, i \div ch, 1) * ch + (i % ch) + ev.base,
                                "wrong_pixels")
                            \cup Chk(Len(ev.out) = Prod(e, 1) * ch, "wrong_number_of_pixels")))
       [] ev.k = "reject" -> Chk(ev.res = "ValueError", "invalid_accepted")
       [] ev.k = "score" ->
            LET f == Facts[ev.fact] IN
            Chk(ev.res = f.res, "outcome_differs_from_the_block")
            \cup Chk(ev.res = "ok" /\ f.res = "ok" => EqV(ev.v, f.v), "not_the_score_of_the_block")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
