----------------------------- MODULE Interrupt -----------------------------
(* Calls that may be cut off.  A call of an object goes through phases: it    *)
(* borrows something everybody uses (a setting, a buffer, a file), works, and *)
(* gives it back; the last phase remembers the result.  A cut in any phase    *)
(* ends the call: what was borrowed is given back on the way out and the      *)
(* object still remembers what it did before.  Along with that runs an        *)
(* implementation that tidies up only when it gets to its last phase and      *)
(* notes its result piece by piece: histories on which it differs from the    *)
(* tidy one are emitted as the ones worth running on the code.                *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS Objs,       \* objects 1..Objs
          Phases,     \* phases of a call
          Len0        \* calls in a history
VARIABLES cur, ph,            \* object of the running call (0: none) and its phase
          lent,               \* something is borrowed
          mem,                \* per object: number of the call it remembers
          right,              \* every finished call gave the right result
          lentX, memX, rightX, \* the same of the untidy implementation
          hist                \* per call <<object, phase in which it was cut or 0>>
vars == <<cur, ph, lent, mem, right, lentX, memX, rightX, hist>>
O == 1..Objs
Init == /\ cur = 0 /\ ph = 0 /\ lent = FALSE /\ lentX = FALSE /\ hist = <<>>
        /\ mem = [o \in O |-> <<0, Phases>>] /\ memX = [o \in O |-> <<0, Phases>>]
        /\ right = TRUE /\ rightX = TRUE
Begin(o) ==
  /\ cur = 0 /\ Len(hist) < Len0
  /\ cur' = o /\ ph' = 1
  /\ right' = (right /\ ~lent)          \* borrows what nobody else holds
  /\ rightX' = (rightX /\ ~lentX)
  /\ lent' = TRUE /\ lentX' = TRUE
  /\ memX' = [memX EXCEPT ![o] = <<Len(hist) + 1, 1>>]
  /\ UNCHANGED <<mem, hist>>
Work ==
  /\ cur # 0 /\ ph < Phases - 1
  /\ ph' = ph + 1
  /\ memX' = [memX EXCEPT ![cur] = <<Len(hist) + 1, ph + 1>>]
  /\ UNCHANGED <<cur, lent, lentX, mem, right, rightX, hist>>
Finish ==
  /\ cur # 0 /\ ph = Phases - 1
  /\ mem' = [mem EXCEPT ![cur] = <<Len(hist) + 1, Phases>>]
  /\ memX' = [memX EXCEPT ![cur] = <<Len(hist) + 1, Phases>>]
  /\ lent' = FALSE /\ lentX' = FALSE
  /\ hist' = Append(hist, <<cur, 0>>) /\ cur' = 0 /\ ph' = 0
  /\ UNCHANGED <<right, rightX>>
Cut ==
  /\ cur # 0
  /\ hist' = Append(hist, <<cur, ph>>) /\ cur' = 0 /\ ph' = 0
  /\ lent' = FALSE
  /\ UNCHANGED <<mem, memX, lentX, right, rightX>>
Next == (\E o \in O : Begin(o)) \/ Work \/ Finish \/ Cut
Spec == Init /\ [][Next]_vars /\ WF_vars(Work \/ Finish)
(* nothing stays borrowed, every finished call is right *)
NoTrace == cur = 0 => ~lent
Repeatable == right
(* an object remembers its last finished call, whole *)
LastDone(o) == LET D == {k \in DOMAIN hist : hist[k] = <<o, 0>>}
               IN IF D = {} THEN 0 ELSE CHOOSE k \in D : \A j \in D : j <= k
Remembers == \A o \in O : mem[o] = <<LastDone(o), Phases>>
Frame == [][\A o \in O : o # cur => mem'[o] = mem[o]]_vars
(* every call ends *)
Ends == cur # 0 ~> cur = 0
Revealing == lentX \/ ~rightX \/ \E o \in O : memX[o] # mem[o]
(* one call that is cut is enough to reveal the untidy implementation, unless the same
   object finishes a call right afterwards *)
CutsReveal == cur = 0 /\ Len(hist) > 0 /\ hist[Len(hist)][2] # 0 => Revealing
NothingElse == cur = 0 /\ (\A k \in DOMAIN hist : hist[k][2] = 0) => ~Revealing
Emit == cur = 0 /\ Len(hist) = Len0 =>
          PrintT("@@C " \o ToJson([hist |-> hist, phases |-> Phases, revealing |-> Revealing]))
=============================================================================
