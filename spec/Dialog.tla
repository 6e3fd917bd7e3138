-------------------------------- MODULE Dialog --------------------------------
(* Two metrics of the same kind, each with an open selection, used by turns.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, Shape, Depth, Pos, Rads, Types, Others
VARIABLES dlg, mem, hist, prev
vars == <<dlg, mem, hist, prev>>
L == INSTANCE DialogLib
G0 == L!NoMem
D0 == L!Start(Kind, Shape, G0, G0)
Init == /\ dlg = <<D0, D0>> /\ mem = <<L!Saved(D0, G0), L!Saved(D0, G0)>> /\ hist = <<>> /\ prev = mem
E(d, what, a, v, t) == [d |-> d, what |-> what, a |-> a, v |-> v, t |-> t]
Act(e) == /\ Len(hist) < Depth /\ hist' = Append(hist, e) /\ prev' = mem
          /\ dlg' = [dlg EXCEPT ![e.d] = IF e.what = "open" THEN L!Start(Kind, Shape, G0, mem[e.d])
                                         ELSE L!Do(@, e.what, e.a, e.v, e.t)]
          /\ mem' = IF e.what = "save" THEN [mem EXCEPT ![e.d] = L!Saved(dlg[e.d], @)]
                    ELSE IF e.what = "open" THEN
                      [mem EXCEPT ![e.d] = L!Saved(L!Start(Kind, Shape, G0, @), @)]
                    ELSE mem
Next == \E d \in {1, 2} :
          \/ \E a \in 1..Len(Shape), v \in Pos : Act(E(d, "sc", a, v, ""))
          \/ Kind = "cnr" /\ \E a \in 1..Len(Shape), v \in Pos : Act(E(d, "bc", a, v, ""))
          \/ \E v \in Rads : Act(E(d, "r", 0, v, ""))
          \/ \E t \in Types : Act(E(d, "t", 0, 0, t))
          \/ \E w \in Others : Act(E(d, w, 0, 5, ""))
Last == hist[Len(hist)]
AlwaysInside == \A d \in {1, 2} : L!Valid(dlg[d])
OnlySave == (hist # <<>> /\ Last.what \notin {"save", "open"}) => mem = prev
Apart == hist # <<>> => \A d \in {1, 2} : d # Last.d => mem[d] = prev[d]
(* what was saved is what the selection shows, and reopening shows it again *)
SavedIsShown == (hist # <<>> /\ Last.what = "save") =>
   LET d == dlg[Last.d]
       m == mem[Last.d]
       again == L!Start(Kind, Shape, G0, m)
   IN /\ (d.t \in {"cubic", "spherical"}) => (m.sc = d.sc /\ m.r = d.r /\ again.sc = d.sc /\ again.r = d.r)
      /\ again.t = d.t /\ L!Valid(again)
Reopen == (hist # <<>> /\ Last.what = "open") => mem[Last.d] = prev[Last.d]
Emit == (Len(hist) = Depth /\ Last.what \in {"save", "open", "t"}) => PrintT("@@C " \o ToJson([kind |-> Kind, shape |-> Shape, steps |-> hist]))
=============================================================================
