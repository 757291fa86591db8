--------------------------- MODULE BlockingQueue_MC ----------------------------
(* The algorithm: a mutex, a condition variable and a flag.  Checked to implement the atomic queue and to lose no wake-up. *)
EXTENDS BlockingQueue, Json
CONSTANTS N, MaxOps, Kinds, Emit, Spurious
VARIABLES pc, lock, waiting, prog, left, hist
mvars == <<q, closed, pend, pc, lock, waiting, prog, left, hist>>
view == IF Emit THEN <<q, closed, pend, pc, lock, waiting, left, prog, hist>> ELSE <<q, closed, pend, pc, lock, waiting, left>>
T == 1..N
MCInit == /\ Init0 /\ pc = [t \in T |-> "idle"] /\ lock = 0 /\ waiting = {} /\ hist = <<>> /\ prog = [t \in T |-> <<>>]
          /\ left = [t \in T |-> MaxOps]
Step(t) == hist' = Append(hist, t)
Go(t, p) == pc' = [pc EXCEPT ![t] = p]
X(t) == 10 * t + left[t]      \* a value of its own for each call
Begin(t) == /\ pc[t] = "idle" /\ left[t] > 0
            /\ \E op \in Kinds : /\ Call(t, op, IF op \in {"push", "try_push"} THEN X(t) ELSE 0)
                                 /\ prog' = [prog EXCEPT ![t] = Append(@, op)]
            /\ left' = [left EXCEPT ![t] = @ - 1] /\ Go(t, "acquire") /\ UNCHANGED <<lock, waiting, hist>>
Op(t) == pend[t].op
Acquire(t) == /\ pc[t] = "acquire"
              /\ \/ lock = 0 /\ lock' = t /\ Go(t, "inside") /\ UNCHANGED <<q, closed, pend>>
                 \/ lock # 0 /\ Op(t) \in {"try_push", "try_pop"} /\ Did(t, FALSE, 0) /\ Go(t, "return") /\ UNCHANGED <<q, closed, lock>>
              /\ Step(t) /\ UNCHANGED <<waiting, prog, left>>
Wakes(t) == Op(t) \in {"push", "try_push", "close"}
\* the effect and the release of the mutex; a pop that finds nothing waits
Inside(t) == /\ pc[t] = "inside" /\ lock = t /\ Step(t) /\ lock' = 0 /\ UNCHANGED <<prog, left>>
             /\ IF Op(t) = "pop" /\ q = <<>> /\ ~closed
                THEN waiting' = waiting \cup {t} /\ Go(t, "asleep") /\ UNCHANGED <<q, closed, pend>>
                ELSE /\ UNCHANGED waiting
                     /\ IF Op(t) = "try_pop" /\ q = <<>> THEN Did(t, FALSE, 0) /\ UNCHANGED <<q, closed>>
                        ELSE IF Op(t) = "try_push" /\ closed THEN Did(t, FALSE, 0) /\ UNCHANGED <<q, closed>>
                        ELSE CASE Op(t) = "try_pop" -> q' = Tail(q) /\ Did(t, TRUE, Head(q)) /\ UNCHANGED closed
                               [] Op(t) = "try_push" -> q' = Append(q, pend[t].x) /\ Did(t, TRUE, 0) /\ UNCHANGED closed
                               [] OTHER -> Effect(t)
                     /\ Go(t, IF Wakes(t) THEN "notify" ELSE "return")
Notify(t) == /\ pc[t] = "notify" /\ Step(t) /\ UNCHANGED <<q, closed, pend, lock, prog, left>>
             /\ \/ waiting = {} /\ UNCHANGED waiting /\ Go(t, "return")
                \/ waiting # {} /\ Op(t) = "close" /\ waiting' = {} /\ pc' = [u \in T |-> IF u \in waiting THEN "acquire" ELSE IF u = t THEN "return" ELSE pc[u]]
                \/ waiting # {} /\ Op(t) # "close" /\ \E w \in waiting : waiting' = waiting \ {w} /\ pc' = [pc EXCEPT ![t] = "return", ![w] = "acquire"]
Awake(t) == /\ Spurious /\ t \in waiting /\ waiting' = waiting \ {t} /\ Go(t, "acquire") /\ Step(t)
            /\ UNCHANGED <<q, closed, pend, lock, prog, left>>
Ret(t) == /\ pc[t] = "return" /\ Return(t, pend[t].ok, pend[t].r) /\ Go(t, "idle") /\ UNCHANGED <<lock, waiting, prog, left, hist>>
Run(t) == Acquire(t) \/ Inside(t) \/ Notify(t) \/ Ret(t)
Done == \A t \in T : left[t] = 0 /\ pc[t] \in {"idle", "asleep"}
MCNext == \E t \in T : Begin(t) \/ Run(t) \/ Awake(t)
MCSpec == MCInit /\ [][MCNext]_mvars /\ \A t \in T : WF_mvars(Run(t))
Atomic == AtomicSpec
\* nobody sleeps while there is something to take or the queue is closed, unless a notification is still on its way
NoLostWakeup == \A t \in T : ~(pc[t] = "asleep" /\ \A u \in T : pc[u] \in {"idle", "asleep"}) \/ (q = <<>> /\ ~closed)
Progress == \A t \in T : (pc[t] # "idle" /\ closed) ~> (pc[t] = "idle")
ASSUME ~(Emit /\ Spurious)   \* histories would be unbounded
EmitTests == (Emit /\ Done') => PrintT(<<"TEST", ToJson([prog |-> prog', sched |-> hist'])>>)
================================================================================
