-------------------------------- MODULE TC24 --------------------------------
EXTENDS Integers, Sequences, FiniteSets, Num, TraceIO, ViewLib
VARIABLES l, st
(* ev.left and ev.right: rows of observed numbers; ev.ref and ev.mod: what    *)
(* each pixel of the two images (the modified one resized) has                *)
Same(ev, o) ==
  LET ax == PlaneAxes(Len(ev.shape), ev.a)
      n == IF o[1] THEN ev.ext[ax[2]] ELSE ev.ext[ax[1]]
      m == IF o[1] THEN ev.ext[ax[1]] ELSE ev.ext[ax[2]]
  IN /\ Len(ev.right) = n /\ \A i \in 1..n : Len(ev.right[i]) = m
     /\ \A i \in 1..n, j \in 1..m :
          LET u == Pos(n, i, o[2])
              v == Pos(m, j, o[3])
              c == IF o[1] THEN At(ev.shape, ev.off, ev.a, ev.kk, v, u) ELSE At(ev.shape, ev.off, ev.a, ev.kk, u, v)
          IN AbsI(ev.right[i][j] - ev.mod[c + 1]) <= ev.tol
Pair(ev) == \E o \in Ways : IsWay(ev.left, ev.shape, ev.off, ev.ext, ev.a, ev.kk, o) /\ Same(ev, o)
(* every result exactly once, with its value to two decimals, none on another *)
Texts(ev) == /\ Len(ev.texts) = Len(ev.results)
             /\ \A i \in 1..Len(ev.results) :
                  Cardinality({j \in 1..Len(ev.texts) : ev.texts[j].name = ev.results[i].name}) = 1
             /\ \A i \in 1..Len(ev.results), j \in 1..Len(ev.texts) :
                  ev.texts[j].name = ev.results[i].name =>
                    IF ev.results[i].v.k = "n" /\ ev.texts[j].v.k = "n"
                    THEN LET d == IAbs(ISub(Val(ev.results[i].v), Val(ev.texts[j].v))) IN ILe(d, IOf(5000001))
                    ELSE ev.results[i].v.k = ev.texts[j].v.k
             /\ \A i, j \in 1..Len(ev.texts) : i # j => ev.texts[i].pos # ev.texts[j].pos
Marks(ev, s) ==
  LET v == ev.views[s]
      b == {1, 2, 3} \ {s}
  IN {{v.lines[i][j] : j \in 1..Len(v.lines[i])} : i \in 1..Len(v.lines)}
       = {Cross(ev.shape, <<0, 0, 0>>, ev.shape, s, ev.sl[s], c, ev.sl[c]) : c \in b}
Step0(s, ev) ==
  CASE ev.k = "compare" -> [st |-> s, fails |->
        IF ev.good THEN Chk(ev.res = "ok", "comparison_rejected")
                        \cup (IF ev.res = "ok" THEN Chk(Pair(ev), "not_the_requested_slice_of_both_images")
                                \cup Chk(Texts(ev), "results_not_printed") \cup Chk(ev.file = ev.want, "file_not_written") ELSE {})
        ELSE Chk(ev.res # "ok", "bad_request_accepted") \cup Chk(~ev.file, "file_of_bad_request")]
    [] ev.k = "view2" -> [st |-> s, fails |->
        IF ev.good THEN Chk(ev.res = "ok" /\ IsSlice(ev.left, ev.shape, <<0, 0>>, ev.shape, 0, 0), "view_does_not_show_the_image")
        ELSE Chk(ev.res # "ok", "bad_request_accepted")]
    [] ev.k = "view3" -> [st |-> s, fails |->
        IF ev.good THEN Chk(ev.res = "ok" /\ Len(ev.views) = 3 /\ \A a \in 1..3 :
                              IsSlice(ev.views[a].cells, ev.shape, <<0, 0, 0>>, ev.shape, a, ev.sl[a]), "view_does_not_show_the_slices")
                        \cup Chk(ev.res = "ok" => (Len(ev.views) = 3 => (~ev.lines \/ \A a \in 1..3 : Marks(ev, a))), "cross_marks_other_slices")
        ELSE Chk(ev.res # "ok", "bad_request_accepted")]
    [] OTHER -> [st |-> s, fails |-> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
