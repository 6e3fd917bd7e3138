-------------------------------- MODULE Frame --------------------------------
(* Which memory an operation may write.  Objects are references to cells; the *)
(* library hands out views of the caller's memory (Load, Crop) as well as     *)
(* copies (Normalise, Resize), and scoring works on scratch copies.           *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS MaxOps
Ops == {"load", "crop", "norm", "resize", "score", "export", "fail"}
VARIABLES heap,     \* cell -> content
          cur,      \* cell the current handle refers to
          caller,   \* cells the caller knows, with the content it saw
          hist
vars == <<heap, cur, caller, hist>>
Init == heap = (1 :> "img") /\ cur = 1 /\ caller = (1 :> "img") /\ hist = <<>>
New == Cardinality(DOMAIN heap) + 1
View(op) == /\ UNCHANGED <<heap, cur, caller>>          \* same memory, nothing written
            /\ hist' = Append(hist, op)
Copy(op) == /\ heap' = (New :> op) @@ heap              \* a new cell is written
            /\ cur' = New
            /\ caller' = (New :> op) @@ caller
            /\ hist' = Append(hist, op)
Scratch(op) == /\ heap' = (New :> "scratch") @@ heap    \* written and dropped
               /\ UNCHANGED <<cur, caller>>
               /\ hist' = Append(hist, op)
Next == /\ Len(hist) < MaxOps
        /\ \/ View("load") \/ View("crop")
           \/ Copy("norm") \/ Copy("resize")
           \/ Scratch("score") \/ Scratch("export") \/ Scratch("fail")
Spec == Init /\ [][Next]_vars
(* C04: what the caller passed in or got back keeps its content *)
Unchanged == \A c \in DOMAIN caller : heap[c] = caller[c]
NoWrite == [][\A c \in DOMAIN heap : heap'[c] = heap[c]]_vars
Emit == Len(hist) = MaxOps => PrintT("@@C " \o ToJson(hist))
=============================================================================
