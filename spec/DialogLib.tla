------------------------------ MODULE DialogLib ------------------------------
(* The interactive selection of a region: what the controls show, what they  *)
(* allow and what is stored.  Absent values are <<>>, -1 and "".             *)
EXTENDS Integers, Sequences
Lo(a, b) == IF a < b THEN a ELSE b
Hi(a, b) == IF a > b THEN a ELSE b
Clamp(v, a, b) == Hi(a, Lo(v, b))
None == 0 - 1
RECURSIVE MinS(_, _)
MinS(s, i) == IF i = Len(s) THEN s[i] ELSE Lo(s[i], MinS(s, i + 1))
RMax(shape) == MinS(shape, 1) \div 2
Centre(shape) == [a \in 1..Len(shape) |-> shape[a] \div 2]
Inside(shape, c, r) == Len(c) = Len(shape) /\ \A a \in 1..Len(shape) : r <= c[a] /\ c[a] <= shape[a] - r
NoMem == [sc |-> <<>>, bc |-> <<>>, r |-> None, t |-> "", auto |-> FALSE, it |-> None, lo |-> None, hi |-> None]
PickS(g, m, dflt) == IF g # <<>> THEN g ELSE IF m # <<>> THEN m ELSE dflt
PickI(g, m, dflt) == IF g # None THEN g ELSE IF m # None THEN m ELSE dflt
PickT(g, m, dflt) == IF g # "" THEN g ELSE IF m # "" THEN m ELSE dflt
(* the start of a selection, from given, remembered and usual values *)
Start(kind, shape, g, m) ==
  IF kind = "cnr" THEN
    LET whole == m.sc # <<>> /\ m.bc # <<>> /\ m.r # None
        h == IF whole THEN m ELSE g
    IN [kind |-> kind, shape |-> shape, sc |-> PickS(h.sc, <<>>, Centre(shape)),
        bc |-> PickS(h.bc, <<>>, Centre(shape)), r |-> PickI(h.r, None, 1), t |-> "cubic",
        it |-> None, lo |-> None, hi |-> None, cit |-> None, clo |-> None, chi |-> None]
  ELSE
    LET it == PickI(g.it, m.it, 2)
        lo == PickI(g.lo, m.lo, 90)
        hi == PickI(g.hi, m.hi, 99)
    IN [kind |-> kind, shape |-> shape, sc |-> PickS(g.sc, m.sc, Centre(shape)), bc |-> <<>>,
        r |-> PickI(g.r, m.r, 1), t |-> PickT(g.t, m.t, "cubic"),
        it |-> it, lo |-> lo, hi |-> hi, cit |-> it, clo |-> lo, chi |-> hi]
DTypes == {"cubic", "spherical", "full", "original"}
Valid(d) == /\ d.r > 0 /\ d.t \in DTypes /\ Inside(d.shape, d.sc, d.r)
            /\ d.kind = "cnr" => Inside(d.shape, d.bc, d.r)
Keep(shape, c, r) == [a \in 1..Len(c) |-> Clamp(c[a], r, shape[a] - r)]
(* a control is moved to v; what it does not allow is limited *)
Do(d, what, a, v, t) ==
  CASE what = "sc" -> [d EXCEPT !.sc = [@ EXCEPT ![a] = Clamp(v, d.r, d.shape[a] - d.r)]]
    [] what = "bc" -> [d EXCEPT !.bc = [@ EXCEPT ![a] = Clamp(v, d.r, d.shape[a] - d.r)]]
    [] what = "r" -> LET r == Clamp(v, 1, RMax(d.shape)) IN
                     [d EXCEPT !.r = r, !.sc = Keep(d.shape, @, r), !.bc = Keep(d.shape, @, r)]
    [] what = "t" -> [d EXCEPT !.t = t]
    [] what = "it" -> [d EXCEPT !.it = Clamp(v, 1, 10)]
    [] what = "lo" -> [d EXCEPT !.lo = Clamp(v, 0, 100)]
    [] what = "hi" -> [d EXCEPT !.hi = Clamp(v, 0, 100)]
    [] what = "calc" -> [d EXCEPT !.t = "full", !.cit = d.it, !.clo = d.lo, !.chi = d.hi]
    [] OTHER -> d
(* what is stored when saving (and when opening) *)
Saved(d, m) ==
  IF d.kind = "cnr" THEN [m EXCEPT !.sc = d.sc, !.bc = d.bc, !.r = d.r]
  ELSE IF d.t = "full" THEN
    [NoMem EXCEPT !.t = d.t, !.auto = TRUE, !.it = d.cit, !.lo = d.clo, !.hi = d.chi]
  ELSE IF d.t = "original" THEN [NoMem EXCEPT !.t = d.t]
  ELSE [NoMem EXCEPT !.t = d.t, !.sc = d.sc, !.r = d.r]
Shown(d) == [sc |-> d.sc, bc |-> d.bc, r |-> d.r, t |-> d.t, it |-> d.it, lo |-> d.lo, hi |-> d.hi]
=============================================================================
