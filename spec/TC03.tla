-------------------------------- MODULE TC03 --------------------------------
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
P == INSTANCE Pairs WITH Names <- {}, MaxCols <- 0, MaxRows <- 0, cols <- <<>>, delim <- "", n <- 0

ReadClauses(ev) ==
  IF P!Acceptable(ev.cols)
  THEN Chk(ev.res = "ok", "well_formed_file_rejected")
       \cup (IF ev.res = "ok" THEN Chk(ev.got = P!Read(ev.cols, ev.rows), "rows_as_in_file") ELSE {})
  ELSE Chk(ev.res = "ValueError", "missing_column_accepted")

SetupClauses(ev) ==
  IF P!SetupOk(ev) THEN Chk(ev.res = "ok", "valid_setup_rejected")
  ELSE Chk(ev.res = "ValueError", "malformed_setup_accepted")

Step0(s, ev) ==
  [st |-> s, fails |-> CASE ev.k = "read" -> ReadClauses(ev)
                         [] ev.k = "setup" -> SetupClauses(ev)
                         [] OTHER -> {"machinery_unknown_event"}]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- 0, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
