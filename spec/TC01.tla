-------------------------------- MODULE TC01 --------------------------------
(* Trace specification of C01.  Facts: the scores of one pair, region and     *)
(* option set computed alone on fresh metric objects from independently       *)
(* prepared arrays.  Events: one BatchMetrics.calculate call each, with its   *)
(* rows and the results it gave.                                              *)
EXTENDS Naturals, Sequences, FiniteSets, Num, TraceIO

VARIABLES l, st

Key(ev, j) == ev.opt \o "|" \o ev.rows[j].r \o "|" \o ev.rows[j].m \o "|" \o
              (IF ev.groi # "none" THEN ev.groi ELSE ev.rows[j].roi)

BatchClauses(ev) ==
  LET n == Len(ev.rows)
      F(j) == Facts[ev.alone[j]]
      known(j) == F(j).key = Key(ev, j)
      anybad == \E j \in 1..n : F(j).res # "ok"
  IN IF ~\A j \in 1..n : known(j) THEN {"machinery_unknown_pair"}
     ELSE IF anybad THEN Chk(ev.res # "ok", "unscorable_pair_accepted")
     ELSE Chk(ev.res = "ok", "batch_failed_but_every_pair_scores_alone")
       \cup (IF ev.res # "ok" THEN {} ELSE
              Chk(Len(ev.vals) = n, "number_of_results")
              \cup Chk(ev.same_attr, "results_attribute_differs_from_return_value")
              \cup IF Len(ev.vals) # n THEN {} ELSE
                   UNION {LET a == ev.vals[j]
                              b == F(j).vals
                          IN IF DOMAIN a # DOMAIN b THEN {"metrics_of_row"}
                             ELSE UNION {Chk(Close(a[q], b[q]), "row_value_as_alone:" \o q) : q \in DOMAIN b}
                          : j \in 1..n})

Step0(s, ev) == [fails |-> BatchClauses(ev), st |-> s]

R == INSTANCE TraceRun WITH Step <- Step0, St0 <- <<>>, Trace <- Trace
TSpec == R!TSpec
TDone == R!TDone
=============================================================================
