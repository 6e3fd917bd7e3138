-------------------------------- MODULE TC19 --------------------------------
(* Block statistics from exact sums of powers.                                *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, RegionLib
VARIABLES l, st
Block(ev, i, j) == [k \in 1..(ev.bs * ev.bs) |-> ev.px[((i + ((k - 1) \div ev.bs)) * ev.m) + j + ((k - 1) % ev.bs) + 1]]
Starts(n, bs, s) == {i \in 0..(n - bs) : i % s = 0}
(* sums of powers of N * x - sum *)
RECURSIVE PowR(_, _, _, _, _)
PowR(q, N, S, k, acc) ==
  IF k > Len(q) THEN acc
  ELSE LET x == IOf(N * q[k] - S) y == ISq(x)
       IN PowR(q, N, S, k + 1, [d2 |-> IAdd(acc.d2, y), d3 |-> IAdd(acc.d3, IMul(x, y)), d4 |-> IAdd(acc.d4, ISq(y))])
Moments(q) == PowR(q, Len(q), Sum(q), 1, [d2 |-> ZERO, d3 |-> ZERO, d4 |-> ZERO])
Zero(v) == v.k = "n" /\ v.s = 0
IsStd(v, N, M) == IF M.d2.s = 0 THEN Zero(v)
                  ELSE IsQuot(v, M.d2, IScale(IScale(IScale(M.d2, N), N), N - 1), 1000000)
IsSkw(v, N, M) == IF M.d2.s = 0 THEN Zero(v)
                  ELSE IsQuot(v, IScale(M.d3, N), IScale(IMul(M.d2, ISq(M.d2)), N), 1000000)
IsKrt(v, N, M) == IF M.d2.s = 0 THEN Zero(v)
                  ELSE IsRatio(v, IScale(M.d4, N), ISq(M.d2), 1000000, 100)
Cell(ev, i, j) == {u * ev.m + v + 1 : u \in i..(i + ev.st - 1), v \in j..(j + ev.st - 1)}
Even(ev, q, i, j) == \A k \in Cell(ev, i, j) : SameNum(q[k], q[i * ev.m + j + 1])
Stats(ev) ==
  UNION {LET M == Moments(Block(ev, i, j)) N == ev.bs * ev.bs k == i * ev.m + j + 1 IN
         Chk(IsStd(ev.std[k], N, M), "wrong_standard_deviation")
         \cup Chk(IsSkw(ev.skw[k], N, M), "wrong_skewness")
         \cup Chk(IsKrt(ev.krt[k], N, M), "wrong_kurtosis")
         \cup Chk(Even(ev, ev.std, i, j) /\ Even(ev, ev.skw, i, j) /\ Even(ev, ev.krt, i, j), "not_the_whole_cell")
         : i \in Starts(ev.n, ev.bs, ev.st), j \in Starts(ev.m, ev.bs, ev.st)}
(* the corner that MAD cuts off may hold the smaller value of another block *)
Corner(ev, i, j) == i < ev.bs \div 2 /\ j < ev.bs \div 2
MinStd(ev) ==
  UNION {LET M == Moments(Block(ev, i, j)) N == ev.bs * ev.bs k == i * ev.m + j + 1 IN
         (IF Corner(ev, i, j) THEN {} ELSE Chk(IsStd(ev.std[k], N, M), "wrong_standard_deviation"))
         \cup Chk(Even(ev, ev.std, i, j), "not_the_whole_cell")
         : i \in Starts(ev.n, ev.bs, ev.st), j \in Starts(ev.m, ev.bs, ev.st)}
Cut(ev) ==
  LET ri == Starts(ev.n, ev.bs, ev.st) ci == Starts(ev.m, ev.bs, ev.st)
      w == Cardinality(ci)
  IN Chk(Len(ev.blocks) = Cardinality(ri) * w, "wrong_number_of_blocks")
     \cup Chk(Len(ev.blocks) = Cardinality(ri) * w =>
                \A b \in 1..Len(ev.blocks) : ev.blocks[b] = Block(ev, ((b - 1) \div w) * ev.st, ((b - 1) % w) * ev.st),
              "wrong_block")
(* block size and overlap as MAD takes them; overlap in per cent *)
Valid(ev) == ev.bs >= 1 /\ ev.bs <= ev.n /\ ev.bs <= ev.m /\ ev.ov >= 0 /\ ev.ov < 100
Take(ev) == IF Valid(ev) THEN Chk(ev.res = "ok", "valid_blocks_rejected")
            ELSE Chk(ev.res = "ValueError", "invalid_blocks_accepted")
Mad(ev) == Chk(ev.res = "ok", "valid_blocks_rejected")
           \cup Chk(ev.res = "ok" => (ev.v.k = "n" /\ CloseR(ev.v, ev.w, 1000000, 100)), "not_from_its_blocks")
Step0(s, ev) ==
  [st |-> s,
   fails |->
     CASE ev.k = "stats" -> Stats(ev)
       [] ev.k = "minstd" -> MinStd(ev)
       [] ev.k = "blocks" -> Cut(ev)
       [] ev.k = "take" -> Take(ev)
       [] ev.k = "mad" -> Mad(ev)
       [] ev.k = "memory" -> Chk(ev.same, "input_changed") \cup Chk(ev.kept = 0, "references_kept")
                             \cup Chk(ev.grown < 30000, "memory_not_released")
       [] ev.k = "bounds" -> Chk(ev.clean, "outside_of_the_image")
       [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
