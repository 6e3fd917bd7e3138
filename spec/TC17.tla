-------------------------------- MODULE TC17 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, MorphLib, SequencesExt
VARIABLES l, st
ToS(q) == {q[i] : i \in 1..Len(q)}
Num2(shape, c) == LET RECURSIVE F(_, _) F(a, acc) == IF a > Len(shape) THEN acc ELSE F(a + 1, acc * shape[a] + c[a]) IN F(1, 0)
Region(shape, t, E, B, k, r) ==
  CASE Cubic(t) \/ Ball(t) -> {j \in Pixels(shape) : InRegion(t, Coords(shape, k), r, Coords(shape, j))}
    [] t = "full" -> ErodeN(shape, E, 2)
    [] t = "original" -> B
    [] OTHER -> E
Find(ev) ==
  LET B == ToS(ev.b)
      whole == Cardinality(B) = Size(ev.shape)
  IN IF B = {} \/ whole \/ ~ev.isbool THEN Chk(ev.res = "ValueError", "not_binary_accepted")
     ELSE Chk(ev.res = "ok", "binary_rejected")
          \cup (IF ev.res # "ok" THEN {} ELSE
                LET E == Clean(ev.shape, B, ev.it)
                    D == Deepest(ev.shape, E)
                    k == Num2(ev.shape, ev.c)
                IN Chk((Len(ev.c) = Len(ev.shape) /\ k \in D.c) \/ E = {}, "not_a_deepest_centre")
                   \cup Chk(ev.same, "image_changed")
                   \cup Chk(ev.r = Isqrt(D.d2), "wrong_radius")
                   \cup Chk(ToS(ev.reg) = Region(ev.shape, ev.t, E, B, k, ev.r), "wrong_region"))
Mark(ev) ==
  LET srt == SortSeq(ev.px, LAMBDA x, y : x < y)
  IN Chk(ToS(ev.b) = Marked(ev.px, srt, ev.lo, ev.up), "wrong_threshold")
(* sums over a set of pixels *)
RECURSIVE SetAcc(_, _, _)
SetAcc(px, S, acc) ==
  IF S = {} THEN acc
  ELSE LET k == CHOOSE x \in S : TRUE
       IN SetAcc(px, S \ {k}, [n |-> acc.n + 1, s |-> IAdd(acc.s, px[k + 1]), q |-> IAdd(acc.q, ISq(px[k + 1]))])
AccS(px, S) == SetAcc(px, S, [n |-> 0, s |-> ZERO, q |-> ZERO])
Scored(ev, t, E, k, r) == IF t = "original" THEN Pixels(ev.shape) ELSE Region(ev.shape, t, E, {}, k, r)
Zero(v) == v.k = "n" /\ v.s = 0
Big(px) == [i \in 1..Len(px) |-> IOf(px[i])]
SnrOf(v, px, S, rel) == LET a == AccS(px, S) d == Var2(a) IN IF d.s = 0 THEN Zero(v) ELSE IsQuot(v, a.s, d, rel)
(* the detected foreground of percentiles lo to up *)
Fg(ev, lo, up) == LET srt == SortSeq(ev.px, LAMBDA x, y : x < y) IN Marked(ev.px, srt, lo, up)
Usable(shape, B) == B # {} /\ Cardinality(B) < Size(shape)
Snr(ev) ==
  LET B == Fg(ev, ev.lo, ev.up) IN
  IF ~Usable(ev.shape, B) THEN Chk(ev.res = "ValueError", "nothing_to_detect_accepted")
  ELSE LET E == Clean(ev.shape, B, ev.it)
           D == Deepest(ev.shape, E)
           r == Isqrt(D.d2)
       IN IF r = 0 THEN Chk(ev.res \in {"ValueError", "TypeError"}, "empty_region_accepted")
          ELSE IF Scored(ev, ev.t, E, CHOOSE k \in D.c : TRUE, r) = {} THEN {}
          ELSE Chk(ev.res = "ok", "detectable_rejected")
               \cup Chk(ev.mem = ev.v, "not_remembered")
               \cup Chk(ev.res = "ok" => \E k \in D.c : LET S == Scored(ev, ev.t, E, k, r) IN
                          IF ev.mode = "grey" THEN SnrOf(ev.v[1], Big(ev.px), S, 100000)
                          ELSE \A i \in 1..3 : SnrOf(ev.v[i + 1], Big(ev.ch[i]), S, 100000),
                        "not_the_score_of_the_detected_region")
Cnr(ev) ==
  LET F == Fg(ev, 90, 100) G == Fg(ev, 0, 90) IN
  IF ~Usable(ev.shape, F) \/ ~Usable(ev.shape, G) THEN Chk(ev.res = "ValueError", "nothing_to_detect_accepted")
  ELSE LET E == Clean(ev.shape, F, ev.it) D == Deepest(ev.shape, E)
           H == Clean(ev.shape, G, ev.it) C == Deepest(ev.shape, H)
           r == MinI(Isqrt(D.d2), Isqrt(C.d2))
           px == Big(ev.px)
           Ok(k, j) == LET a == AccS(px, Scored(ev, ev.t, E, k, r))
                           g == AccS(px, Scored(ev, ev.t, H, j, r))
                           d == Var2(g)
                       IN IF a.n = 0 \/ g.n = 0 THEN TRUE
                          ELSE IF d.s = 0 THEN Zero(ev.v[1])
                          ELSE IsQuot(ev.v[1], ISub(IScale(a.s, g.n), IScale(g.s, a.n)), IScale(IScale(d, a.n), a.n), 100000)
       IN IF r = 0 THEN Chk(ev.res \in {"ValueError", "TypeError"}, "empty_region_accepted")
          ELSE IF Scored(ev, ev.t, E, CHOOSE k \in D.c : TRUE, r) = {} \/ Scored(ev, ev.t, H, CHOOSE k \in C.c : TRUE, r) = {} THEN {}
          ELSE Chk(ev.res = "ok", "detectable_rejected")
               \cup Chk(ev.mem = ev.v, "not_remembered")
               \cup Chk(ev.res = "ok" => \E k \in D.c, j \in C.c : Ok(k, j), "not_the_score_of_the_detected_regions")
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "find" -> Find(ev)
       [] ev.k = "mark" -> Mark(ev)
       [] ev.k = "snr" -> Snr(ev)
       [] ev.k = "cnr" -> Cnr(ev)
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
