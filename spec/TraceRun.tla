------------------------------ MODULE TraceRun ------------------------------
(* Replays a trace recorded from the implementation through a specification.  *)
(* Step(st, ev) gives the set of violated clauses and the next abstract       *)
(* state; verdicts are total: every line is judged, none blocks the rest.     *)
(* Lines with a field "neg" are corrupted copies of real lines: they must be  *)
(* rejected (the harness checks that) and do not change the abstract state.   *)
EXTENDS Naturals, Sequences, Json, TLC
CONSTANTS Step(_, _), St0, Trace
VARIABLES l, st
TInit == l = 1 /\ st = St0
TNext == /\ l <= Len(Trace)
         /\ LET ev == Trace[l]
                r == Step(st, ev)
            IN /\ IF r.fails = {} THEN TRUE
                  ELSE PrintT("@@F " \o ToJson(<<l, r.fails>>))
               /\ st' = IF "neg" \in DOMAIN ev THEN st ELSE r.st
         /\ l' = l + 1
TSpec == TInit /\ [][TNext]_<<l, st>>
TDone == l = Len(Trace) + 1 => PrintT("@@D " \o ToString(Len(Trace)))
=============================================================================
