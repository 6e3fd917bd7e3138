-------------------------------- MODULE Pairs --------------------------------
(* Pairs files: a table with a header, written with one of three delimiters.  *)
(* Reading selects the two required columns of every row, in order.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names,      \* column names that may occur
          MaxCols, MaxRows
Delims == {",", ";", "tab"}
Req == <<"reference_image", "modified_image">>

IsIn(x, q) == \E i \in 1..Len(q) : q[i] = x
Col(cols, name) == CHOOSE i \in 1..Len(cols) : cols[i] = name
Acceptable(cols) == IsIn(Req[1], cols) /\ IsIn(Req[2], cols)
Read(cols, rows) == [j \in 1..Len(rows) |->
                       <<rows[j][Col(cols, Req[1])], rows[j][Col(cols, Req[2])]>>]

(* set-up checks of a batch or multi-metric object *)
SetupOk(c) == /\ c.nmetrics = c.nparams
              /\ ~c.badmetric /\ ~c.badparam
              /\ (c.kind = "batch" => ~c.missing /\ (c.nrois = -1 \/ c.nrois = c.npairs))

VARIABLES cols, delim, n
Init == /\ delim \in Delims
        /\ n \in 0..MaxRows
        /\ cols \in {q \in UNION {[1..k -> Names] : k \in 1..MaxCols} :
                       \A i, j \in 1..Len(q) : q[i] = q[j] => i = j}
Next == UNCHANGED <<cols, delim, n>>
Cells == [j \in 1..n |-> [i \in 1..Len(cols) |-> <<j, cols[i]>>]]
(* column order does not matter *)
OrderFree == Acceptable(cols) =>
  \A j \in 1..n : Read(cols, Cells)[j] = <<<<j, Req[1]>>, <<j, Req[2]>>>>
RowCount == Acceptable(cols) => Len(Read(cols, Cells)) = n
Emit == PrintT("@@C " \o ToJson([cols |-> cols, delim |-> delim, n |-> n]))
=============================================================================
