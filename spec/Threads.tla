------------------------------- MODULE Threads -------------------------------
(* Several scorings at the same time.  Each process goes through phases: it   *)
(* takes its settings, works on its image and finally remembers the result.   *)
(* Every phase may only look at the process' own cell.  The same behaviour    *)
(* is run along with one cell for all (shared): a schedule is revealing if    *)
(* that gives something else, so emitted schedules say what they can find.    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANTS N,          \* processes 1..N
          Phases      \* phases of each
Procs == 1..N
VARIABLES pc,         \* phases done
          cell,       \* own store of each process
          shared,     \* the store of an implementation that keeps one for all
          seen,       \* what each process has read in its phases, own store
          seenShared, \* the same, with the shared store
          sched       \* who took the steps so far
vars == <<pc, cell, shared, seen, seenShared, sched>>
Empty == [by |-> 0, phase |-> 0]
Init == /\ pc = [p \in Procs |-> 0] /\ cell = [p \in Procs |-> Empty] /\ shared = Empty
        /\ seen = [p \in Procs |-> <<>>] /\ seenShared = [p \in Procs |-> <<>>] /\ sched = <<>>
(* a phase reads what the phase before left and leaves its own mark *)
Step(p) ==
  /\ pc[p] < Phases
  /\ pc' = [pc EXCEPT ![p] = @ + 1]
  /\ seen' = [seen EXCEPT ![p] = Append(@, IF pc[p] = 0 THEN Empty ELSE cell[p])]
  /\ seenShared' = [seenShared EXCEPT ![p] = Append(@, IF pc[p] = 0 THEN Empty ELSE shared)]
  /\ cell' = [cell EXCEPT ![p] = [by |-> p, phase |-> pc[p] + 1]]
  /\ shared' = [by |-> p, phase |-> pc[p] + 1]
  /\ sched' = Append(sched, p)
Next == \E p \in Procs : Step(p)
Spec == Init /\ [][Next]_vars
Finished == \A p \in Procs : pc[p] = Phases
(* what a process reads when nobody else is there *)
Alone(p) == [k \in 1..Phases |-> IF k = 1 THEN Empty ELSE [by |-> p, phase |-> k - 1]]
AsAlone == \A p \in Procs : \A k \in 1..Len(seen[p]) : seen[p][k] = Alone(p)[k]
Frame == [][\A p \in Procs : pc'[p] = pc[p] => cell'[p] = cell[p] /\ seen'[p] = seen[p]]_vars
Switches == Cardinality({k \in 1..(Len(sched) - 1) : sched[k] # sched[k + 1]})
Revealing == \E p \in Procs : seenShared[p] # Alone(p)
(* one after another reveals nothing; every schedule that interrupts a process does *)
Serial == Finished => (Revealing <=> Switches > N - 1)
Emit == Finished => PrintT("@@C " \o ToJson([sched |-> sched, n |-> N, phases |-> Phases,
                                              revealing |-> Revealing]))
=============================================================================
