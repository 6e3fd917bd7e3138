------------------------------- MODULE Blocks -------------------------------
(* The block loops of MAD: blocks of bs x bs pixels start at multiples of the *)
(* stride; the statistics of a block are assigned to the stride x stride      *)
(* cell at its start.                                                         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Ns, Bs
VARIABLES n, m, bs, st, i, j, owner, phase
vars == <<n, m, bs, st, i, j, owner, phase>>
None == 0 - 1
Init == /\ n \in Ns /\ m \in Ns /\ bs \in Bs /\ bs <= n /\ bs <= m
        /\ st \in 1..bs
        /\ i = 0 /\ j = 0 /\ phase = "loop"
        /\ owner = [k \in 1..(n * m) |-> None]
Reads == {u * m + v : u \in i..(i + bs - 1), v \in j..(j + bs - 1)}
Cell == {u * m + v : u \in i..(i + st - 1), v \in j..(j + st - 1)}
Body == /\ phase = "loop"
        /\ owner' = [k \in 1..(n * m) |-> IF k - 1 \in Cell THEN i * m + j ELSE owner[k]]
        /\ IF j + st < m - (bs - 1) THEN j' = j + st /\ i' = i /\ phase' = phase
           ELSE /\ j' = 0 /\ i' = i + st
                /\ phase' = IF i + st < n - (bs - 1) THEN "loop" ELSE "done"
        /\ UNCHANGED <<n, m, bs, st>>
Next == Body
(* nothing outside of the image is read or written *)
ReadIn == phase = "loop" => i + bs <= n /\ j + bs <= m
WriteIn == phase = "loop" => i + st <= n /\ j + st <= m
(* a cell is written once *)
Once == phase = "loop" => \A k \in Cell : owner[k + 1] = None
(* all that is left after cutting off the edges belongs to the block of its cell *)
Inner == phase = "done" =>
  \A u \in bs..(n - bs - 1), v \in bs..(m - bs - 1) :
     owner[u * m + v + 1] = (u \div st) * st * m + (v \div st) * st
Belongs == phase = "done" => \A k \in 1..(n * m) : owner[k] # None =>
  LET u == (k - 1) \div m v == (k - 1) % m IN owner[k] = (u \div st) * st * m + (v \div st) * st
Emit == phase = "done" => PrintT("@@C " \o ToJson([n |-> n, m |-> m, bs |-> bs, st |-> st, owner |-> owner]))
=============================================================================
