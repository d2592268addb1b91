------------------------------ MODULE ThreadSync ------------------------------
(* The synchronization algorithm of execution contexts (the lock, condition,  *)
(* barrier counters and status word shared by the threads of a context), with *)
(* every interleaving of its atomic steps and spurious wake-ups.  Thread 0 is *)
(* the master: it creates the context, launches Rounds tasks, and frees the   *)
(* context; a task passes Bars barriers.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS N, Rounds, Bars, Spurious
Thr == 0 .. N - 1

VARIABLES pc, lock, sleep, stat, barr, bain, my, run, bars, tasks, destroyed

vars == <<pc, lock, sleep, stat, barr, bain, my, run, bars, tasks, destroyed>>

(* pc: "b.lock" enter a barrier, "b.wait" asleep in it, "b.back" woken up;    *)
(* "w.*" the same at the end of a task; "i.*" a slave waiting for a task.     *)
Init ==
   /\ pc = [t \in Thr |-> "s.lock"]           \* the barrier at the end of the creation
   /\ lock = -1 /\ sleep = {} /\ stat = "rdy" /\ barr = 0 /\ bain = 0
   /\ my = [t \in Thr |-> 0]
   /\ run = 0                                  \* tasks launched
   /\ bars = [t \in Thr |-> 0]                 \* barriers passed by the thread in the current task
   /\ tasks = [t \in Thr |-> 0]                \* tasks completed by the thread
   /\ destroyed = FALSE

Kinds == {"s", "b", "w"}                       \* start, in a task, end of a task
K(t) == IF pc[t] \in {"s.lock", "s.in", "s.wait", "s.back"} THEN "s"
        ELSE IF pc[t] \in {"b.lock", "b.in", "b.wait", "b.back"} THEN "b" ELSE "w"
At(t, x) == pc[t] \in {k \o x : k \in Kinds}
Go(t, x) == pc' = [pc EXCEPT ![t] = x]

\* where a thread goes once it has passed a barrier of kind k
After(t, k) ==
   CASE k = "s" -> IF t = 0 THEN "m.idle" ELSE "i.lock"
     [] k = "b" -> "t.task"
     [] OTHER   -> IF t = 0 THEN "m.idle" ELSE "i.lock"

BarLock(t) == At(t, ".lock") /\ lock = -1 /\ lock' = t /\ Go(t, K(t) \o ".in")
              /\ UNCHANGED <<sleep, stat, barr, bain, my, run, bars, tasks, destroyed>>
BarIn(t) ==
   /\ At(t, ".in")
   /\ my' = [my EXCEPT ![t] = bain]
   /\ IF barr + 1 = N
      THEN /\ barr' = 0 /\ bain' = bain + 1
           /\ stat' = IF K(t) = "w" THEN "rdy" ELSE stat
           /\ sleep' = {}                       \* broadcast
           /\ lock' = -1
           /\ Go(t, After(t, K(t)))
           /\ bars' = IF K(t) = "b" THEN [bars EXCEPT ![t] = @ + 1] ELSE bars
           /\ tasks' = tasks
      ELSE /\ barr' = barr + 1
           /\ sleep' = sleep \cup {t} /\ lock' = -1
           /\ Go(t, K(t) \o ".wait")
           /\ UNCHANGED <<bain, stat, bars, tasks>>
   /\ UNCHANGED <<run, destroyed>>
BarWake(t) == At(t, ".wait") /\ t \notin sleep /\ lock = -1 /\ lock' = t /\ Go(t, K(t) \o ".back")
              /\ UNCHANGED <<sleep, stat, barr, bain, my, run, bars, tasks, destroyed>>
BarBack(t) ==
   /\ At(t, ".back") /\ lock' = -1
   /\ IF bain = my[t]
      THEN sleep' = sleep \cup {t} /\ Go(t, K(t) \o ".wait") /\ bars' = bars
      ELSE /\ sleep' = sleep
           /\ Go(t, After(t, K(t)))
           /\ bars' = IF K(t) = "b" THEN [bars EXCEPT ![t] = @ + 1] ELSE bars
   /\ UNCHANGED <<stat, barr, bain, my, run, tasks, destroyed>>

Task(t) ==                                      \* a step of the task
   /\ pc[t] = "t.task"
   /\ IF bars[t] < Bars THEN Go(t, "b.lock") /\ UNCHANGED <<tasks, bars>>
                        ELSE Go(t, "w.lock") /\ tasks' = [tasks EXCEPT ![t] = @ + 1] /\ bars' = [bars EXCEPT ![t] = 0]
   /\ UNCHANGED <<lock, sleep, stat, barr, bain, my, run, destroyed>>

IdleLock(t) == pc[t] = "i.lock" /\ lock = -1 /\ lock' = t /\ Go(t, "i.in")
               /\ UNCHANGED <<sleep, stat, barr, bain, my, run, bars, tasks, destroyed>>
IdleIn(t) ==
   /\ pc[t] = "i.in" /\ lock' = -1
   /\ CASE stat = "rdy" -> sleep' = sleep \cup {t} /\ Go(t, "i.wait")
        [] stat = "run" -> sleep' = sleep /\ Go(t, "t.task")
        [] OTHER        -> sleep' = sleep /\ Go(t, "i.bye")
   /\ UNCHANGED <<stat, barr, bain, my, run, bars, tasks, destroyed>>
IdleWake(t) == pc[t] = "i.wait" /\ t \notin sleep /\ lock = -1 /\ lock' = t /\ Go(t, "i.in")
               /\ UNCHANGED <<sleep, stat, barr, bain, my, run, bars, tasks, destroyed>>
Bye(t) == pc[t] = "i.bye" /\ lock = -1 /\ barr' = barr + 1 /\ Go(t, "done")
          /\ UNCHANGED <<lock, sleep, stat, bain, my, run, bars, tasks, destroyed>>

Launch ==                                       \* under the lock: set the task, wake up the slaves
   /\ pc[0] = "m.idle" /\ run < Rounds /\ lock = -1
   /\ stat' = "run" /\ run' = run + 1 /\ sleep' = {} /\ Go(0, "t.task")
   /\ UNCHANGED <<lock, barr, bain, my, bars, tasks, destroyed>>
Exit ==
   /\ pc[0] = "m.idle" /\ run = Rounds /\ lock = -1
   /\ stat' = "dwn" /\ sleep' = {} /\ Go(0, "m.exit")
   /\ UNCHANGED <<lock, barr, bain, my, run, bars, tasks, destroyed>>
Spin == /\ pc[0] = "m.exit" /\ lock = -1 /\ barr = N - 1
        /\ destroyed' = TRUE /\ Go(0, "done")
        /\ UNCHANGED <<lock, sleep, stat, barr, bain, my, run, bars, tasks>>
Surprise(t) == Spurious /\ t \in sleep /\ sleep' = sleep \ {t}
               /\ UNCHANGED <<pc, lock, stat, barr, bain, my, run, bars, tasks, destroyed>>
Finished == (\A t \in Thr : pc[t] = "done") /\ UNCHANGED vars

Step(t) == BarLock(t) \/ BarIn(t) \/ BarWake(t) \/ BarBack(t) \/ Task(t)
           \/ (t # 0 /\ (IdleLock(t) \/ IdleIn(t) \/ IdleWake(t) \/ Bye(t)))
Next == (\E t \in Thr : Step(t) \/ Surprise(t)) \/ Launch \/ Exit \/ Spin \/ Finished
Spec == Init /\ [][Next]_vars /\ (\A t \in Thr : SF_vars(Step(t))) /\ SF_vars(Launch \/ Exit \/ Spin)

Busy(t) == pc[t] \in {"t.task", "b.lock", "b.in", "b.wait", "b.back"}
\* nobody is ahead of a thread of the same task by more than the barrier in progress
BarriersHold == \A t, u \in Thr : (Busy(t) /\ Busy(u) /\ tasks[t] = tasks[u]) => bars[t] - bars[u] \in -1 .. 1
\* a thread that has passed k barriers of a task is not met by one that has not arrived at the k-th
NoOvertake == \A t, u \in Thr : (Busy(t) /\ pc[t] = "t.task" /\ bars[t] > 0 /\ tasks[u] = tasks[t] /\ Busy(u) /\ pc[u] = "t.task")
                                => bars[u] >= bars[t] - 1
\* the master is idle only when every slave has completed every task
LaunchWaits == pc[0] \in {"m.idle", "m.exit"} => \A t \in Thr : tasks[t] = run
OneTask == \A t \in Thr : tasks[t] <= run /\ tasks[t] >= run - 1
NobodyAfterDestroy == destroyed => \A t \in Thr : pc[t] = "done"
Mutex == \A t \in Thr : (At(t, ".in") \/ At(t, ".back") \/ pc[t] = "i.in") => lock = t
Termination == <>(\A t \in Thr : pc[t] = "done")
==============================================================================
