----------------------------- MODULE BlockingQueue -----------------------------
(* The blocking queue as an atomic object: an operation is called, takes effect once (Effect) and returns.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
VARIABLES q, closed, pend
qvars == <<q, closed, pend>>
\* pend: [thread -> [op, x, done, ok, r]] of the calls that have not returned
Init0 == q = <<>> /\ closed = FALSE /\ pend = <<>>
Call(t, op, x) == /\ t \notin DOMAIN pend
                  /\ pend' = (t :> [op |-> op, x |-> x, done |-> FALSE, ok |-> TRUE, r |-> 0]) @@ pend
                  /\ UNCHANGED <<q, closed>>
Busy(t) == \E u \in DOMAIN pend : u # t
Did(t, ok, r) == pend' = [pend EXCEPT ![t].done = TRUE, ![t].ok = ok, ![t].r = r]
\* a queue that is closed accepts no elements; the try operations may also give up while another operation is under way
Push(t) == /\ pend[t].op = "push" /\ Did(t, TRUE, 0)
           /\ q' = IF closed THEN q ELSE Append(q, pend[t].x)
           /\ UNCHANGED closed
TryPush(t) == /\ pend[t].op = "try_push"
              /\ \/ ~closed /\ q' = Append(q, pend[t].x) /\ Did(t, TRUE, 0)
                 \/ (closed \/ Busy(t)) /\ q' = q /\ Did(t, FALSE, 0)
              /\ UNCHANGED closed
Pop(t) == /\ pend[t].op = "pop"
          /\ \/ q # <<>> /\ q' = Tail(q) /\ Did(t, TRUE, Head(q))
             \/ q = <<>> /\ closed /\ q' = q /\ Did(t, FALSE, 0)
          /\ UNCHANGED closed
TryPop(t) == /\ pend[t].op = "try_pop"
             /\ \/ q # <<>> /\ q' = Tail(q) /\ Did(t, TRUE, Head(q))
                \/ (q = <<>> \/ Busy(t)) /\ q' = q /\ Did(t, FALSE, 0)
             /\ UNCHANGED closed
Close(t) == pend[t].op = "close" /\ closed' = TRUE /\ Did(t, TRUE, 0) /\ UNCHANGED q
Size(t) == pend[t].op = "size" /\ Did(t, TRUE, Len(q)) /\ UNCHANGED <<q, closed>>
Empty(t) == pend[t].op = "empty" /\ Did(t, q = <<>>, 0) /\ UNCHANGED <<q, closed>>
Effect(t) == t \in DOMAIN pend /\ ~pend[t].done /\ (Push(t) \/ TryPush(t) \/ Pop(t) \/ TryPop(t) \/ Close(t) \/ Size(t) \/ Empty(t))
Return(t, ok, r) == /\ t \in DOMAIN pend /\ pend[t].done /\ pend[t].ok = ok /\ pend[t].r = r
                    /\ pend' = [u \in DOMAIN pend \ {t} |-> pend[u]]
                    /\ UNCHANGED <<q, closed>>
\* when no thread can continue, the only calls under way are pops that have nothing to take
Quiet == (\A t \in DOMAIN pend : pend[t].op = "pop" /\ ~pend[t].done /\ q = <<>> /\ ~closed) /\ UNCHANGED qvars
End == pend = <<>> /\ UNCHANGED qvars
ANext == \/ \E t \in DOMAIN pend' \ DOMAIN pend : Call(t, pend'[t].op, pend'[t].x)
         \/ \E t \in DOMAIN pend : Effect(t) \/ Return(t, pend[t].ok, pend[t].r)
AtomicSpec == Init0 /\ [][ANext]_qvars
================================================================================
