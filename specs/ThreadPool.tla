------------------------------ MODULE ThreadPool -------------------------------
(* What a pool of workers owes to those who submit tasks.                                                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
VARIABLES size, phase, task, seen
tvars == <<size, phase, task, seen>>
\* task: [i -> [st, w, fail, fut]] ; seen: workers that executed something ; phase: "open", "closing", "gone"
Init0 == size = 0 /\ phase = "none" /\ task = <<>> /\ seen = {}
Open(n) == size' = n /\ phase' = "open" /\ UNCHANGED <<task, seen>>
Running(w) == \E i \in DOMAIN task : task[i].st = "running" /\ task[i].w = w
\* producers submit while the pool is open, tasks also while it is closing
Submit(i, by, fut) ==
  /\ i \notin DOMAIN task
  /\ phase = "open" \/ (phase = "closing" /\ Running(by))
  /\ task' = (i :> [st |-> "queued", w |-> 0, fail |-> FALSE, fut |-> fut]) @@ task
  /\ UNCHANGED <<size, phase, seen>>
Start(i, w) ==
  /\ i \in DOMAIN task /\ task[i].st = "queued" /\ ~Running(w) /\ phase # "gone"
  /\ Cardinality(seen \cup {w}) <= size /\ seen' = seen \cup {w}
  /\ task' = [task EXCEPT ![i].st = "running", ![i].w = w]
  /\ UNCHANGED <<size, phase>>
Finish(i, w, fail) ==
  /\ i \in DOMAIN task /\ task[i].st = "running" /\ task[i].w = w
  /\ task' = [task EXCEPT ![i].st = "done", ![i].fail = fail]
  /\ UNCHANGED <<size, phase, seen>>
Result(i, fail) == i \in DOMAIN task /\ task[i].st = "done" /\ task[i].fut /\ task[i].fail = fail /\ UNCHANGED tvars
Destroy == phase = "open" /\ phase' = "closing" /\ UNCHANGED <<size, task, seen>>
AllDone == \A i \in DOMAIN task : task[i].st = "done"
Gone == phase = "closing" /\ AllDone /\ phase' = "gone" /\ UNCHANGED <<size, task, seen>>
================================================================================
