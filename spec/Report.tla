------------------------------- MODULE Report -------------------------------
(* The report directory shared by several batch / multi-metric objects.       *)
(* A file is identified by project prefix and kind; its content is the        *)
(* <<object, version of its results>> it was last written from.               *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs, Projects, MaxOps
Kinds == {"csv", "meta"}
Files == Projects \X Kinds
VARIABLES dir, ver, hist, wrote
vars == <<dir, ver, hist, wrote>>

Init == /\ dir = [f \in Files |-> <<>>]
        /\ ver = [o \in Objs |-> 1]
        /\ hist = <<>> /\ wrote = {}

Calc(o) == /\ ver' = [ver EXCEPT ![o] = @ + 1]
           /\ wrote' = {}
           /\ UNCHANGED dir
           /\ hist' = Append(hist, [op |-> "calc", o |-> o, csv |-> FALSE, meta |-> FALSE, proj |-> "-"])
(* report: the requested kinds, and only these, are replaced completely *)
Rep(o, c, m, p) ==
  /\ wrote' = (IF c THEN {<<p, "csv">>} ELSE {}) \cup (IF m THEN {<<p, "meta">>} ELSE {})
  /\ dir' = [f \in Files |-> IF f \in wrote' THEN <<o, ver[o]>> ELSE dir[f]]
  /\ UNCHANGED ver
  /\ hist' = Append(hist, [op |-> "report", o |-> o, csv |-> c, meta |-> m, proj |-> p])
(* a wrong extension is rejected before anything is written *)
Bad(o, k) == /\ wrote' = {} /\ UNCHANGED <<dir, ver>>
             /\ hist' = Append(hist, [op |-> "bad", o |-> o, csv |-> k = "csv", meta |-> k = "meta", proj |-> "-"])

Next == /\ Len(hist) < MaxOps
        /\ \/ \E o \in Objs : Calc(o)
           \/ \E o \in Objs, c, m \in BOOLEAN, p \in Projects : Rep(o, c, m, p)
           \/ \E o \in Objs, k \in Kinds : Bad(o, k)
Spec == Init /\ [][Next]_vars

(* a file changes only by being written, and then holds the current results *)
OnlyRequested == [][\A f \in Files : dir'[f] # dir[f] => f \in wrote']_vars
Current == \A f \in wrote : dir[f] # <<>> /\ dir[f][2] = ver[dir[f][1]]
NeverAhead == \A f \in Files : dir[f] # <<>> => dir[f][2] <= ver[dir[f][1]]
Emit == Len(hist) = MaxOps => PrintT("@@C " \o ToJson(hist))
=============================================================================
