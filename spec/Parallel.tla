------------------------------ MODULE Parallel ------------------------------
(***************************************************************************)
(* Design of the parallel renderers: a pool of workers takes tasks from a  *)
(* queue; every task adds its contribution to overlapping cells of one     *)
(* shared array, as separate read and write steps.                         *)
(*                                                                         *)
(* Sync = "lock"     read and write under one mutex shared by all workers  *)
(*        "none"     no mutex                                              *)
(*        "private"  every worker has a mutex of its own                   *)
(*        "half"     the mutex covers the first channel only               *)
(*        "disjoint" one cell per task (no overlap), no mutex              *)
(*                                                                         *)
(* SameAsSerial is what every caller of jobs_count relies on.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Workers, Tasks, Width, Sync, Gen

Channels == {1, 2}
Cells == 1..(Tasks + Width)
Region(i) == IF Sync = "disjoint" THEN {i} ELSE i..(i + Width - 1)
Amount(i) == 10 ^ (i - 1)          \* distinguishable contributions

VARIABLES next,   \* next task in the queue
          task,   \* worker -> task in progress, 0 if idle
          ch,     \* worker -> channel it is adding to
          pc,     \* worker -> "idle" | "want" | "read" | "write"
          seen,   \* worker -> values it has read
          owner,  \* who holds the mutex
          mem,    \* channel -> cell -> value
          sched   \* history of steps (programs)
vars == <<next, task, ch, pc, seen, owner, mem, sched>>
Free == "free"
Zeros == [c \in Channels |-> [k \in Cells |-> 0]]
Init == /\ next = 1 /\ task = [w \in Workers |-> 0] /\ ch = [w \in Workers |-> 1]
        /\ pc = [w \in Workers |-> "idle"] /\ seen = [w \in Workers |-> <<>>]
        /\ owner = Free /\ mem = Zeros /\ sched = <<>>
Locks(w) == Sync = "lock" \/ (Sync = "half" /\ ch[w] = 1)
Note(x) == sched' = IF Gen THEN Append(sched, x) ELSE sched
Take(w) == /\ pc[w] = "idle" /\ next <= Tasks
           /\ task' = [task EXCEPT ![w] = next] /\ next' = next + 1
           /\ ch' = [ch EXCEPT ![w] = 1] /\ pc' = [pc EXCEPT ![w] = "want"]
           /\ Note(<<"take", w>>) /\ UNCHANGED <<seen, owner, mem>>
Acquire(w) == /\ pc[w] = "want"
              /\ IF Locks(w) THEN owner \in {Free, w} /\ owner' = w ELSE owner' = owner
              /\ pc' = [pc EXCEPT ![w] = "read"]
              /\ UNCHANGED <<next, task, ch, seen, mem, sched>>
Read(w) == /\ pc[w] = "read"
           /\ seen' = [seen EXCEPT ![w] = mem[ch[w]]]
           /\ pc' = [pc EXCEPT ![w] = "write"]
           /\ Note(<<"read", w>>) /\ UNCHANGED <<next, task, ch, owner, mem>>
Write(w) == /\ pc[w] = "write"
            /\ mem' = [mem EXCEPT ![ch[w]] =
                 [k \in Cells |-> IF k \in Region(task[w]) THEN seen[w][k] + Amount(task[w])
                                  ELSE mem[ch[w]][k]]]
            /\ IF ch[w] = 1
               THEN /\ ch' = [ch EXCEPT ![w] = 2]
                    /\ IF Sync = "half"
                       THEN owner' = Free /\ pc' = [pc EXCEPT ![w] = "want"]
                       ELSE owner' = owner /\ pc' = [pc EXCEPT ![w] = "read"]
                    /\ UNCHANGED task
               ELSE /\ pc' = [pc EXCEPT ![w] = "idle"] /\ task' = [task EXCEPT ![w] = 0]
                    /\ owner' = (IF owner = w THEN Free ELSE owner) /\ UNCHANGED ch
            /\ Note(<<"write", w>>) /\ UNCHANGED <<next, seen>>
Next == \E w \in Workers : Take(w) \/ Acquire(w) \/ Read(w) \/ Write(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Done == next > Tasks /\ \A w \in Workers : pc[w] = "idle"
RECURSIVE Sum(_, _)
Sum(k, i) == IF i = 0 THEN 0 ELSE (IF k \in Region(i) THEN Amount(i) ELSE 0) + Sum(k, i - 1)
Serial == [c \in Channels |-> [k \in Cells |-> Sum(k, Tasks)]]
SameAsSerial == Done => mem = Serial
Mutex == Sync = "lock" =>
           Cardinality({w \in Workers : pc[w] \in {"read", "write"}}) <= 1
Terminates == <>Done
=============================================================================
