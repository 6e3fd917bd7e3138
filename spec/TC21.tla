-------------------------------- MODULE TC21 --------------------------------
(* Exports.  State: the remembered scores (v), the names (n), and the content *)
(* of the export directory (dir: file name -> rows).                          *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Scored(s, idx) == SelectSeq(idx, LAMBDA i : s.v[i].k # "none")
RowsOk(rows, s, idx) ==
  LET q == Scored(s, idx) IN
  /\ Len(rows) = Len(q) + 1
  /\ rows[1] = [c |-> <<"Metric", "Value">>, v |-> rows[1].v]
  /\ \A j \in 1..Len(q) : /\ Len(rows[j + 1].c) = 2
                          /\ rows[j + 1].c[1] = s.n[q[j]]
                          /\ Close(rows[j + 1].v, s.v[q[j]])
LastNamed(s, idx, name) ==
  idx[CHOOSE j \in 1..Len(idx) : s.n[idx[j]] = name /\ \A k \in 1..Len(idx) : s.n[idx[k]] = name => k <= j]
DictOk(d, s, idx) ==
  /\ {d[j].name : j \in 1..Len(d)} = {s.n[idx[j]] : j \in 1..Len(idx)}
  /\ \A j \in 1..Len(d) : LET o == s.v[LastNamed(s, idx, d[j].name)] IN
       IF o.k = "none" THEN d[j].text = "n/a" ELSE Close(d[j].v, o)
Same(s, ev) == \A i \in DOMAIN s.v : SameNum(ev.vals[i], s.v[i])
DirOk(s, ev, name, other) ==     \* only that file changed
  /\ name \in DOMAIN ev.dir
  /\ DOMAIN ev.dir = DOMAIN s.dir \cup {name}
  /\ \A f \in DOMAIN s.dir \ {name} : ev.dir[f] = s.dir[f]
Step0(s, ev) ==
  CASE ev.k = "new" -> [fails |-> {}, st |-> [v |-> ev.vals, n |-> ev.names, dir |-> ev.dir]]
    [] ev.k = "score" -> [fails |-> {}, st |-> [s EXCEPT !.v = ev.vals]]
    [] ev.k = "export" ->
        [fails |-> Chk(ev.res = "ok", "export_failed")
              \cup Chk(DirOk(s, ev, ev.file, 0), "wrong_files")
              \cup Chk(ev.res = "ok" => RowsOk(ev.rows, s, ev.idx), "wrong_rows")
              \cup Chk(ev.hasdict => DictOk(ev.dict, s, ev.idx), "wrong_dictionary")
              \cup Chk(ev.hasdict = ev.wantdict, "dictionary_not_returned")
              \cup Chk(Same(s, ev), "export_changes_scores"),
         st |-> [s EXCEPT !.dir = ev.dir, !.v = ev.vals]]
    [] ev.k = "print" ->    \* 10^-dec / 2 tolerance, given as abs9
        [fails |-> Chk(Same(s, ev), "printing_changes_scores")
              \cup (IF s.v[ev.o].k = "none" THEN Chk(ev.out # "number", "prints_without_score")
                    ELSE Chk(ev.out = "number" /\ ev.name = ev.cls /\ CloseR(ev.v, s.v[ev.o], 1000000, ev.abs9), "prints_wrong_score")),
         st |-> s]
    [] ev.k = "describe" ->
        [fails |-> Chk(ev.res = "ok", "describe_failed")
              \cup Chk(IF ev.file = "" THEN ev.dir = s.dir ELSE DirOk(s, ev, ev.file, 0), "wrong_files")
              \cup Chk(ev.file # "" => Len(ev.rows) = 2 /\ ev.rows[1].c = ev.keys /\ Len(ev.rows[2].c) = Len(ev.keys), "wrong_rows")
              \cup Chk(ev.file # "" /\ Len(ev.rows) = 2 /\ Len(ev.cells) = Len(ev.want)
                       => \A i \in 1..Len(ev.want) : Close(ev.cells[i], ev.ret[i]), "wrong_values")
              \cup Chk(ev.file # "" => Len(ev.cells) = Len(ev.want), "wrong_number_of_values")
              \cup Chk(\A i \in 1..Len(ev.want) : CloseR(ev.ret[i], ev.want[i], 5000, 200000), "wrong_returned_statistics")
              \cup Chk(ev.same, "image_changed"),
         st |-> [s EXCEPT !.dir = ev.dir]]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
