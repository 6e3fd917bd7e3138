-------------------------------- MODULE TC23 --------------------------------
(* st: what each metric remembers and what each open selection shows.         *)
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, RegionLib, DialogLib
VARIABLES l, st
GoodLim(d, lim) == /\ lim.r = <<1, RMax(d.shape)>>
                   /\ lim.c = [a \in 1..Len(d.sc \o d.bc) |->
                                 <<d.r, d.shape[((a - 1) % Len(d.shape)) + 1] - d.r>>]
Same(dl, ev) == Len(ev.shown) = Len(dl) /\ \A i \in 1..Len(dl) : ev.shown[i] = Shown(dl[i])
Lims(dl, ev) == Len(ev.lims) = Len(dl) /\ \A i \in 1..Len(dl) : GoodLim(dl[i], ev.lims[i])
InsideAll(dl, ev) == \A i \in 1..Len(ev.shown) :
   LET s == ev.shown[i] IN Inside(dl[i].shape, s.sc, s.r) /\ (dl[i].kind = "cnr" => Inside(dl[i].shape, s.bc, s.r))
(* pixel numbers a view shows and marks: view i of centre c *)
Slice(shape, c, a) == {k \in 0..(Size(shape) - 1) : a = 0 \/ Coords(shape, k)[a] = c[a]}
Marked(shape, t, c, r, a) ==
  IF Cubic(t) \/ Ball(t) THEN {k \in Slice(shape, c, a) : InRegion(t, c, r, Coords(shape, k))} ELSE {}
View(w, shape, t, c, r, a) ==
  /\ {w.cells[i] : i \in 1..Len(w.cells)} = Slice(shape, c, a) /\ Len(w.cells) = Cardinality(Slice(shape, c, a))
  /\ {w.px[i] : i \in 1..Len(w.px)} = Marked(shape, t, c, r, a)
Views(ev, kind, shape, t, sc, bc, r) ==
  LET n == IF Len(shape) = 2 THEN 1 ELSE 3
      A(i) == IF n = 1 THEN 0 ELSE ((i - 1) % 3) + 1
      C(i) == IF kind = "cnr" /\ i <= n THEN bc ELSE sc
  IN ev.views = <<>> \/ (/\ Len(ev.views) = (IF kind = "cnr" THEN 2 * n ELSE n)
                         /\ \A i \in 1..Len(ev.views) : View(ev.views[i], shape, t, C(i), r, A(i)))
Common(s, ev) == Chk(ev.mems = s.mem, "remembered_values_wrong")
                 \cup Chk(InsideAll(s.dlg, ev), "region_can_leave_the_image")
                 \cup Chk(Same(s.dlg, ev), "controls_show_something_else")
                 \cup Chk(Lims(s.dlg, ev), "controls_allow_something_else")
One(v, px, shape, t, c, r, rel) ==
  LET a == Acc(px, shape, t, c, r)
      q == Var2(a)
  IN IF q.s = 0 THEN v.k = "n" /\ v.s = 0 ELSE IsQuot(v, a.s, q, rel)
Two(v, px, shape, c, b, r, rel) ==
  LET x == Acc(px, shape, "cubic", c, r)
      y == Acc(px, shape, "cubic", b, r)
      q == Var2(y)
  IN IF q.s = 0 THEN v.k = "n" /\ v.s = 0
     ELSE IsQuot(v, ISub(x.s, y.s), q, rel)          \* both regions have the same size
Step0(s, ev) ==
  CASE ev.k = "new" -> [st |-> [mem |-> [i \in 1..Len(ev.mets) |-> NoMem], dlg |-> <<>>], fails |-> {}]
    [] ev.k = "open" ->
        LET d == Start(ev.kind, ev.shape, ev.given, s.mem[ev.m])
            n == IF ev.ints /\ Valid(d) THEN [mem |-> [s.mem EXCEPT ![ev.m] = Saved(d, @)], dlg |-> Append(s.dlg, d)] ELSE s
        IN [st |-> n,
            fails |-> (IF ev.ints /\ Valid(d) THEN Chk(ev.res = "ok", "valid_start_rejected")
                       ELSE Chk(ev.res \in {"ValueError", "TypeError"}, "invalid_start_accepted"))
                      \cup (IF ev.res = "ok" /\ ev.ints /\ Valid(d) THEN Common(n, ev)
                              \cup Chk(Views(ev, d.kind, d.shape, d.t, d.sc, d.bc, d.r), "view_marks_another_region")
                            ELSE Chk(ev.mems = n.mem, "remembered_values_wrong"))]
    [] ev.k = "do" ->
        LET d == Do(s.dlg[ev.d], ev.what, ev.a, ev.v, ev.t)
            n == [mem |-> IF ev.what = "save" THEN [s.mem EXCEPT ![ev.m] = Saved(d, @)] ELSE s.mem,
                  dlg |-> [s.dlg EXCEPT ![ev.d] = d]]
        IN [st |-> n, fails |-> Common(n, ev)
              \cup Chk(Views(ev, d.kind, d.shape, d.t, d.sc, d.bc, d.r), "view_marks_another_region")]
    [] ev.k = "told" ->
        [st |-> [s EXCEPT !.mem = [@ EXCEPT ![ev.m] = [@ EXCEPT !.sc = ev.sc, !.r = ev.r,
                   !.bc = IF ev.bc = <<>> THEN @ ELSE ev.bc, !.t = IF ev.t = "" THEN @ ELSE ev.t]]], fails |-> {}]
    [] ev.k = "score" ->
        LET m == s.mem[ev.m] IN
        [st |-> s, fails |-> Chk(IF ev.kind = "cnr" THEN Two(ev.v, ev.px, ev.shape, m.sc, m.bc, m.r, 1000000)
                                 ELSE One(ev.v, ev.px, ev.shape, m.t, m.sc, m.r, 1000000), "saved_region_not_scored")]
    [] ev.k = "overlay" ->                     \* the region shown after a calculation is the scored one
        [st |-> s, fails |-> Chk(One(ev.v, ev.px, <<Len(ev.px)>>, "original", <<0>>, 1, 1000000), "shown_region_not_scored")]
    [] ev.k = "view" -> [st |-> s, fails |-> Chk(ev.views # <<>> /\ Views(ev, ev.kind, ev.shape, ev.t, ev.sc, ev.bc, ev.r), "view_marks_another_region")]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- [mem |-> <<>>, dlg |-> <<>>], Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
