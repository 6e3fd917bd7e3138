-------------------------------- MODULE Arith --------------------------------
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ops, Depth, Init1, Init2, Init3
VARIABLES bufs, hist, prev
vars == <<bufs, hist, prev>>
L == INSTANCE ArithLib
perm == <<2, 1>>
Objs == {"A", "V", "P", "B"}
Init == bufs = <<Init1, Init2, Init3>> /\ hist = <<>> /\ prev = bufs
Ev(kind, op, x, y, o) == [kind |-> kind, op |-> op, x |-> x, y |-> y, o |-> o, sv |-> 2, w |-> <<>>, idx |-> <<1>>]
Do(e) == /\ Len(hist) < Depth
         /\ prev' = bufs /\ bufs' = L!After(bufs, perm, e, 0) /\ hist' = Append(hist, e)
Next == \/ \E op \in Ops, x \in Objs, y \in Objs \cup {"S"} : Do(Ev("new", op, x, y, "-")) \/ Do(Ev("in", op, x, y, "-"))
        \/ \E op \in Ops, x \in Objs, y \in Objs, o \in Objs : Do(Ev("out", op, x, y, o))
        \/ \E x \in Objs : Do(Ev("set", "add", x, "S", "-")) \/ Do(Ev("at", "add", x, "S", "-"))
Last == hist[Len(hist)]
Target(e) == CASE e.kind = "new" -> {} [] e.kind = "out" -> {L!BufOf(e.o)} [] OTHER -> {L!BufOf(e.x)}
(* only the buffer of the target changes *)
NoAccident == hist # <<>> => \A b \in 1..3 : b \notin Target(Last) => bufs[b] = prev[b]
(* the view and its base show the same memory *)
Coherent == L!Read(bufs, perm, "V", 0) = <<bufs[1][2], bufs[1][1]>>
(* the result is what a fresh operation gives *)
Stored == (hist # <<>> /\ Last.kind = "out") =>
            L!Read(bufs, perm, Last.o, 0) = L!Result(prev, perm, Last, 0)
InPlace == (hist # <<>> /\ Last.kind = "in") =>
            L!Read(bufs, perm, Last.x, 0) = L!Result(prev, perm, Last, 0)
Emit == Len(hist) = Depth => PrintT("@@C " \o ToJson(hist))
=============================================================================
