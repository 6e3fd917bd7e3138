-------------------------------- MODULE Types --------------------------------
(* A pixel-wise difference energy, accumulated pixel by pixel, with pixels    *)
(* stored in a type of given width.  Converting every pixel before arithmetic *)
(* ("early") makes the result a function of the values alone; arithmetic in   *)
(* the storage type ("late") wraps.  The model records for which pixel pairs  *)
(* the two differ: these are the pairs the implementation is driven with.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Pix, Types, MaxLen
Wrap(t, x) == LET n == CASE t = "u8" -> 256 [] t = "i16" -> 65536 [] OTHER -> 65536
                  y == x % n
              IN IF t = "i16" /\ y >= 32768 THEN y - 65536 ELSE y
VARIABLES t, r, m, early, late
vars == <<t, r, m, early, late>>
Init == /\ t \in Types /\ r = <<>> /\ m = <<>> /\ early = 0 /\ late = 0
Add(a, b) == /\ r' = Append(r, a) /\ m' = Append(m, b) /\ t' = t
             /\ early' = early + (a - b) * (a - b)
             /\ late' = Wrap(t, late + Wrap(t, Wrap(t, a - b) * Wrap(t, a - b)))
Next == Len(r) < MaxLen /\ \E a, b \in Pix : Add(a, b)
RECURSIVE S(_)
S(k) == IF k = 0 THEN 0 ELSE (r[k] - m[k]) * (r[k] - m[k]) + S(k - 1)
ValuesOnly == early = S(Len(r))               \* no trace of the storage type
LateNeverExact == late <= early               \* wrapping only loses
Emit == Len(r) = MaxLen /\ late # early => PrintT("@@C " \o ToJson([t |-> t, r |-> r, m |-> m]))
=============================================================================
