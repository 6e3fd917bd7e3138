------------------------------- MODULE Metric -------------------------------
(* Metric objects and the value each of them remembers.  A score is a         *)
(* function of the kind of metric, its settings and the images; a failing     *)
(* call returns nothing.  "last" is history: the input of the last successful *)
(* call, which is what the remembered value has to belong to.                 *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Inputs, MaxOps, Reads
VARIABLES val, last, file, hist
vars == <<val, last, file, hist>>
None == "none"
Score(o, i) == <<o, i>>                 \* the value a fresh object would return
Init == /\ val = [o \in Objs |-> <<>>] /\ last = [o \in Objs |-> None]
        /\ file = <<>> /\ hist = <<>>
Ok(o, i) == /\ val' = [val EXCEPT ![o] = Score(o, i)]
            /\ last' = [last EXCEPT ![o] = i]
            /\ UNCHANGED file
            /\ hist' = Append(hist, [op |-> "score", o |-> o, i |-> i])
Fail(o) == /\ UNCHANGED <<val, last, file>>
           /\ hist' = Append(hist, [op |-> "fail", o |-> o, i |-> "-"])
(* print, compare, fuse: read only *)
Read(o, r) == /\ UNCHANGED <<val, last, file>>
              /\ hist' = Append(hist, [op |-> r, o |-> o, i |-> "-"])
Export == /\ "export" \in Reads
          /\ file' = val
          /\ UNCHANGED <<val, last>>
          /\ hist' = Append(hist, [op |-> "export", o |-> 1, i |-> "-"])
Next == /\ Len(hist) < MaxOps
        /\ \/ \E o \in Objs, i \in Inputs : Ok(o, i)
           \/ \E o \in Objs : Fail(o)
           \/ \E o \in Objs, r \in Reads \ {"export"} : Read(o, r)
           \/ Export
Spec == Init /\ [][Next]_vars
(* the remembered value belongs to the last successful call of that object *)
Own == \A o \in Objs : val[o] = IF last[o] = None THEN <<>> ELSE Score(o, last[o])
(* it changes only by a successful call of that object *)
OnlyScore == [][\A o \in Objs : val'[o] # val[o] =>
                 hist'[Len(hist')].op = "score" /\ hist'[Len(hist')].o = o]_vars
(* the order of calls on different objects does not matter *)
LastOf(o) == LET S == {j \in 1..Len(hist) : hist[j].op = "score" /\ hist[j].o = o}
             IN IF S = {} THEN None ELSE hist[CHOOSE j \in S : \A k \in S : k <= j].i
Independent == \A o \in Objs : last[o] = LastOf(o)
FileKnown == file # <<>> => \A o \in Objs : file[o] = <<>> \/ file[o][1] = o
Emit == Len(hist) = MaxOps => PrintT("@@C " \o ToJson(hist))
=============================================================================
