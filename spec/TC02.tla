-------------------------------- MODULE TC02 --------------------------------
(* Trace specification of C02.  The abstract state is the report directory    *)
(* (name -> digest) and the results of every object.                          *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st

(* ---- result keys: metric order, no-reference metrics twice -------------- *)
RECURSIVE KeysOf(_)
KeysOf(ms) == IF ms = <<>> THEN <<>>
              ELSE (IF ms[1].type = "fr" THEN <<ms[1].name>>
                    ELSE <<ms[1].name \o "_r", ms[1].name \o "_m">>) \o KeysOf(Tail(ms))

Exact(a, b) == CloseR(a, b, 1000000000, 2)
RowValues(cells, from, res) ==
  \A q \in 1..Len(res) : Exact(cells[from + q].v, res[q].v)
Strings(cells) == [q \in 1..Len(cells) |-> cells[q].s]

BatchCsv(o, rows) ==
  LET n == Len(o.pairs)
      hdr == <<"pair_num", "reference_image", "modified_image">> \o KeysOf(o.metrics)
  IN Chk(Len(rows) = n + 1, "csv_one_row_per_pair")
     \cup (IF Len(rows) = 0 THEN {} ELSE Chk(Strings(rows[1]) = hdr, "csv_header"))
     \cup (IF Len(rows) # n + 1 THEN {} ELSE UNION {
            LET c == rows[j + 1] IN
            IF Len(c) # Len(hdr) THEN {"csv_columns"}
            ELSE Chk(c[1].s = ToString(j - 1), "csv_pair_number")
                 \cup Chk(c[2].s = o.pairs[j][1] /\ c[3].s = o.pairs[j][2], "csv_image_names")
                 \cup Chk(RowValues(c, 3, o.res[j]), "csv_values")
            : j \in 1..n})

MultiCsv(o, rows) ==
  LET hdr == KeysOf(o.metrics) IN
  IF Len(rows) # 2 THEN {"csv_one_row"}
  ELSE Chk(Strings(rows[1]) = hdr, "csv_header")
       \cup (IF Len(rows[2]) # Len(hdr) THEN {"csv_columns"}
             ELSE Chk(RowValues(rows[2], 0, o.res[1]), "csv_values"))

(* the metadata lists each metric with its data range and its own parameters *)
Meta(o, f) ==
  Chk(f.version = o.version, "metadata_version")
  \cup Chk(f.blocks = [q \in 1..Len(o.metrics) |->
        <<o.metrics[q].cls, "data_range: " \o o.metrics[q].range>> \o o.metrics[q].params],
        "metadata_blocks")

Prefix(p) == IF p = "" THEN "" ELSE p \o "_"
CsvName(p) == Prefix(p) \o "results.csv"
MetaName(p) == Prefix(p) \o "metadata.txt"
ImgNames(ev, o) ==
  IF ~ev.image THEN {}
  ELSE IF o.kind = "batch"
       THEN {Prefix(ev.proj) \o "image_comparison_" \o ToString(j - 1) \o ".png" : j \in 1..Len(o.pairs)}
       ELSE IF ev.expimg THEN {Prefix(ev.proj) \o "image_comparison.png"} ELSE {}

Put(f, x, y) == (x :> y) @@ f

ReportClauses(s, ev) ==
  LET o == s.objs[ev.o]
      want == (IF ev.csv THEN {CsvName(ev.proj)} ELSE {})
              \cup (IF ev.meta THEN {MetaName(ev.proj)} ELSE {})
              \cup ImgNames(ev, o)
      names == DOMAIN ev.files
  IN Chk(ev.res = "ok", "report_failed")
     \cup Chk(names = DOMAIN s.dir \cup want, "files_in_directory")
     \cup Chk(\A f \in names \cap DOMAIN s.dir : f \notin want => ev.files[f].h = s.dir[f],
              "unrequested_file_changed")
     \cup (IF ev.csv /\ CsvName(ev.proj) \in names
           THEN IF o.kind = "batch" THEN BatchCsv(o, ev.files[CsvName(ev.proj)].rows)
                ELSE MultiCsv(o, ev.files[CsvName(ev.proj)].rows)
           ELSE {})
     \cup (IF ev.meta /\ MetaName(ev.proj) \in names
           THEN Meta(o, ev.files[MetaName(ev.proj)]) ELSE {})
     \cup (IF ev.text
           THEN IF Len(ev.lines) # Len(o.res[1]) THEN {"printed_values"}
                ELSE Chk(\A q \in 1..Len(ev.lines) :
                       /\ ev.lines[q].name = o.res[1][q].name
                       /\ ev.lines[q].decimals = ev.decimals
                       /\ ILe(IAbs(IScale(ISub(Val(ev.lines[q].v), Val(o.res[1][q].v)), 2)),
                              IAdd(IPow10(9 - ev.decimals), IOf(4))),
                       "printed_values")
           ELSE {})

ResClauses(o, res) ==
  UNION {Chk([q \in 1..Len(res[j]) |-> res[j][q].name] = KeysOf(o.metrics), "result_keys")
         \cup Chk(Len(res[j]) = Len(o.metrics) + Cardinality({q \in 1..Len(o.metrics) : o.metrics[q].type # "fr"}), "number_of_results")
         : j \in 1..Len(res)}

Step0(s, ev) ==
  CASE ev.k = "session" -> [fails |-> UNION {ResClauses(ev.objs[q], ev.objs[q].res) : q \in 1..Len(ev.objs)},
                            st |-> [dir |-> <<>>, objs |-> ev.objs]]
    [] ev.k = "calc" -> [fails |-> ResClauses(s.objs[ev.o], ev.vals) \cup Chk(ev.res = "ok", "calculate_failed")
                                   \cup Chk(Len(ev.vals) = Len(s.objs[ev.o].res), "one_result_per_pair")
                                   \cup Chk(DOMAIN ev.files = DOMAIN s.dir /\ \A f \in DOMAIN ev.files : ev.files[f].h = s.dir[f], "calculate_touched_files"),
                         st |-> [s EXCEPT !.objs = [s.objs EXCEPT ![ev.o] = [s.objs[ev.o] EXCEPT !.res = ev.vals]]]]
    [] ev.k = "report" -> [fails |-> ReportClauses(s, ev),
                           st |-> [s EXCEPT !.dir = [f \in DOMAIN ev.files |-> ev.files[f].h]]]
    [] ev.k = "bad" -> [fails |-> Chk(ev.res = "ValueError", "wrong_extension_accepted")
                              \cup Chk(DOMAIN ev.files = DOMAIN s.dir
                                       /\ \A f \in DOMAIN ev.files : ev.files[f].h = s.dir[f], "rejected_call_wrote"),
                        st |-> s]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]

R == INSTANCE TraceRun WITH Step <- Step0, St0 <- [dir |-> <<>>, objs |-> <<>>], Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
