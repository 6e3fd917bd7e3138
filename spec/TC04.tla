-------------------------------- MODULE TC04 --------------------------------
(* The abstract state is the content of every object the caller holds:        *)
(* name -> digest of values, shape, type, layout.  "have" introduces objects, *)
(* "op" is a library call after which every object must be as it was.         *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO
VARIABLES l, st
Changed(s, after) == {x \in DOMAIN s : x \notin DOMAIN after \/ after[x] # s[x]}
Step0(s, ev) ==
  CASE ev.k = "have" -> [fails |-> {}, st |-> IF ev.cut THEN ev.objs ELSE ev.objs @@ s]
    [] ev.k = "op" -> [fails |-> {"changed:" \o ev.kinds[x] : x \in Changed(s, ev.after)}
                                 \cup Chk(ev.files, "files_changed"),
                       st |-> ev.after]
    [] OTHER -> [fails |-> {"machinery_unknown_event"}, st |-> s]
R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
