---------------------------- MODULE ThreadPool_MC ------------------------------
(* The algorithm: a queue per worker, submission and stealing by try operations that may find a queue locked, a counter of
   unfinished jobs, and shutdown that waits for the counter, closes the queues and joins the workers.                      *)
EXTENDS ThreadPool, Json
CONSTANTS N, K, Nested, Emit
VARIABLES queue, pc, hand, n, next, unfinished, shut, spawned, hist
mvars == <<size, phase, task, seen, queue, pc, hand, n, next, unfinished, shut, spawned, hist>>
view == IF Emit THEN mvars ELSE <<size, phase, task, seen, queue, pc, hand, n, next, unfinished, shut, spawned>>
W == 1..N
MCInit == /\ size = N /\ phase = "open" /\ task = <<>> /\ seen = {}
          /\ queue = [w \in W |-> <<>>] /\ pc = [w \in W |-> "scan"] /\ hand = [w \in W |-> 0] /\ n = [w \in W |-> 0]
          /\ next = 0 /\ unfinished = 0 /\ shut = FALSE /\ spawned = 0 /\ hist = <<>>
Step(t) == hist' = Append(hist, t)
At(i) == (i % N) + 1
\* submission: the queue in turn or, when that is locked, another one
Put(i, by) == /\ Submit(i, by, TRUE) /\ unfinished' = unfinished + 1 /\ next' = next + 1
              /\ \E w \in W : ~shut /\ queue' = [queue EXCEPT ![w] = Append(@, i)]
MainPut == /\ phase = "open" /\ next - spawned < K /\ Put(Cardinality(DOMAIN task) + 1, 0) /\ Step(0)
           /\ UNCHANGED <<pc, hand, n, shut, spawned>>
MainDestroy == /\ phase = "open" /\ next - spawned = K /\ Destroy /\ Step(0)
               /\ UNCHANGED <<queue, pc, hand, n, next, unfinished, shut, spawned>>
MainShut == /\ phase = "closing" /\ unfinished = 0 /\ ~shut /\ shut' = TRUE /\ Step(0)
            /\ UNCHANGED <<size, phase, task, seen, queue, pc, hand, n, next, unfinished, spawned>>
MainJoin == /\ shut /\ \A w \in W : pc[w] = "left"
            /\ Gone /\ Step(0) /\ UNCHANGED <<queue, pc, hand, n, next, unfinished, shut, spawned>>
Take(w, v) == queue[v] # <<>> /\ queue' = [queue EXCEPT ![v] = Tail(@)] /\ hand' = [hand EXCEPT ![w] = Head(queue[v])]
\* a scan of all queues, twice over in the code; a try may fail on a locked queue
Scan(w) == /\ pc[w] = "scan" /\ Step(w) /\ UNCHANGED <<size, phase, task, seen, next, unfinished, shut, spawned>>
           /\ \/ Take(w, At(w - 1 + n[w])) /\ pc' = [pc EXCEPT ![w] = "run"] /\ n' = [n EXCEPT ![w] = 0]
              \/ UNCHANGED <<queue, hand>> /\ IF n[w] + 1 < N THEN n' = [n EXCEPT ![w] = @ + 1] /\ UNCHANGED pc
                                              ELSE n' = [n EXCEPT ![w] = 0] /\ pc' = [pc EXCEPT ![w] = "pop"]
PopOwn(w) == /\ pc[w] = "pop" /\ Step(w) /\ UNCHANGED <<size, phase, task, seen, n, next, unfinished, shut, spawned>>
             /\ \/ Take(w, w) /\ pc' = [pc EXCEPT ![w] = "run"]
                \/ queue[w] = <<>> /\ shut /\ pc' = [pc EXCEPT ![w] = "left"] /\ UNCHANGED <<queue, hand>>
Begin(w) == /\ pc[w] = "run" /\ Start(hand[w], w) /\ pc' = [pc EXCEPT ![w] = "work"] /\ Step(w)
            /\ UNCHANGED <<queue, hand, n, next, unfinished, shut, spawned>>
Spawn(w) == /\ pc[w] = "work" /\ spawned < Nested /\ Put(Cardinality(DOMAIN task) + 1, w) /\ spawned' = spawned + 1 /\ Step(w)
            /\ UNCHANGED <<pc, hand, n, shut>>
Complete(w) == /\ pc[w] = "work" /\ Finish(hand[w], w, FALSE) /\ pc' = [pc EXCEPT ![w] = "count"] /\ Step(w)
               /\ UNCHANGED <<queue, hand, n, next, unfinished, shut, spawned>>
Count(w) == /\ pc[w] = "count" /\ unfinished' = unfinished - 1 /\ pc' = [pc EXCEPT ![w] = "scan"] /\ Step(w)
            /\ UNCHANGED <<size, phase, task, seen, queue, hand, n, next, shut, spawned>>
Main == MainPut \/ MainDestroy \/ MainShut \/ MainJoin
Worker(w) == Scan(w) \/ PopOwn(w) \/ Begin(w) \/ Complete(w) \/ Count(w)
MCNext == Main \/ \E w \in W : Worker(w) \/ Spawn(w)
MCSpec == MCInit /\ [][MCNext]_mvars /\ WF_mvars(Main) /\ \A w \in W : WF_mvars(Worker(w))
Accounted == unfinished >= Cardinality({i \in DOMAIN task : task[i].st # "done"})
Terminates == <>(phase = "gone")
NothingAfter == phase = "gone" => AllDone /\ \A w \in W : queue[w] = <<>>
EmitTests == (Emit /\ phase' = "gone" /\ phase # "gone") => PrintT(<<"TEST", ToJson(<<hist', spawned'>>)>>)
================================================================================
