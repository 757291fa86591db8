------------------------------ MODULE Simulation ------------------------------
(* The simulation engine: agents with wake-up times and mailboxes, stepped in rounds.

   A step fixes a time point `now'.  In each round of the step every active agent that is due (its wake-up time has come,
   or it never ran) is processed once: the messages that are due are handed to its callbacks, then it acts.  The answer is
   its next wake-up time.  At the end of a round the messages sent in it are delivered, which may make agents due again at
   the same time point and so opens another round; otherwise the step ends and names the next event.

   Guards carry the property they belong to; Props selects the enforced ones.                                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
VARIABLES
  now, upper, \* current step
  end,        \* end of the simulation
  phase,      \* "idle" | "round" | "ended" | "failed"
  active,     \* agents in the model
  cbs,        \* [agent -> sequence of <<type, priority>>] callbacks in order of registration
  wake,       \* [agent -> next wake-up, Never if it did not run yet]
  inbox,      \* [agent -> set of messages]
  outbox,     \* [agent -> sequence of messages]
  due, done,  \* agents that must be / were processed in this round
  rnd,        \* number of rounds so far: stamps deliveries
  must,       \* agents with a message that is due in this round
  fresh,      \* agents whose first round this must be
  queue,      \* <<activations, deactivations>> not yet handled by the environment
  err,        \* error that has to surface
  order       \* "in_order" | "random"
vars == <<now, upper, end, phase, active, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, queue, err, order>>

G(p, c) == p \in Props => c
GG(S, c) == S \cap Props # {} => c
Never == -1
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
Range(s) == {s[k] : k \in 1..Len(s)}

Init0(e, o) == /\ now = 0 /\ upper = 0 /\ end = e /\ phase = "idle" /\ active = {} /\ cbs = <<>> /\ wake = <<>>
               /\ inbox = <<>> /\ outbox = <<>> /\ due = {} /\ done = {} /\ rnd = 0 /\ must = {} /\ fresh = {}
               /\ queue = <<0, 0>> /\ err = "" /\ order = o

(*-------------------------------------------------- creation ------------------------------------------------------*)
Ext(f, a, v) == [x \in DOMAIN f \cup {a} |-> IF x = a THEN v ELSE f[x]]
\* new: sequence of [a, cbs] records, gone: sequence of agents; applied to the population in one go
NewIds(new) == {new[k].a : k \in 1..Len(new)}
ExtAll(f, new, V(_)) == [x \in DOMAIN f \cup NewIds(new) |->
                           IF x \in NewIds(new) THEN V(new[CHOOSE k \in 1..Len(new) : new[k].a = x]) ELSE f[x]]
Create(a, c) ==
  /\ GG({"C15"}, a \notin DOMAIN cbs)
  /\ active' = active \cup {a} /\ cbs' = Ext(cbs, a, c) /\ wake' = Ext(wake, a, Never)
  /\ inbox' = Ext(inbox, a, {}) /\ outbox' = Ext(outbox, a, <<>>)
  /\ queue' = <<queue[1] + 1, queue[2]>>
  /\ UNCHANGED <<now, upper, end, phase, due, done, rnd, must, fresh, err, order>>
Deactivate(a) ==
  /\ active' = active \ {a} /\ queue' = <<queue[1], queue[2] + 1>>
  /\ UNCHANGED <<now, upper, end, phase, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, err, order>>
Handle(k, n) ==  \* the environment works off its queue of activations (1) or deactivations (2)
  /\ phase = "idle"
  /\ G("C15", n = queue[k])
  /\ queue' = [queue EXCEPT ![k] = 0]
  /\ UNCHANGED <<now, upper, end, phase, active, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, err, order>>

(*---------------------------------------------------- rounds ------------------------------------------------------*)
Due(A, w, t) == {a \in A : w[a] <= t}                          \* Never = -1 is always due
Mail(A, in, t) == {a \in A : \E m \in in[a] : m.recv <= t}
BeginStep(lo, hi) ==
  /\ phase = "idle" /\ lo < hi
  /\ G("C13", lo >= now)
  /\ now' = lo /\ upper' = hi /\ phase' = "round" /\ done' = {}
  /\ due' = Due(active, wake, lo) /\ must' = Mail(active, inbox, lo) /\ fresh' = {a \in active : wake[a] = Never}
  /\ UNCHANGED <<end, active, cbs, wake, inbox, outbox, rnd, queue, err, order>>

Types(a) == {c[1] : c \in Range(cbs[a])}
Prio(a, m) == Max({cbs[a][k][2] : k \in {j \in 1..Len(cbs[a]) : cbs[a][j][1] = m.type}})
DueMail(a) == {m \in inbox[a] : m.recv <= now}
Handled(a) == {m \in DueMail(a) : m.type \in Types(a)}         \* messages without callbacks are ignored
Before(m, n) == \/ m.recv < n.recv
                \/ m.recv = n.recv /\ (m.rnd < n.rnd \/ (m.rnd = n.rnd /\ m.from = n.from /\ m.seq < n.seq))
Msg(a, id) == CHOOSE m \in inbox[a] : m.id = id
\* calls: sequence of [id, k, ret]: callback k was given message id and named ret as the next event
Registered(a, m) == {k \in 1..Len(cbs[a]) : cbs[a][k][1] = m.type}
ExactMail(a, calls) ==
  /\ {calls[j].id : j \in 1..Len(calls)} = {m.id : m \in Handled(a)}
  /\ \A i, j \in 1..Len(calls) : i # j => <<calls[i].id, calls[i].k>> # <<calls[j].id, calls[j].k>>
ExactCallbacks(a, calls) ==
  \A m \in Handled(a) : (\E j \in 1..Len(calls) : calls[j].id = m.id) =>
     LET S == SelectSeq(calls, LAMBDA x : x.id = m.id) IN
       /\ Len(S) = Cardinality(Registered(a, m)) /\ {S[j].k : j \in 1..Len(S)} = Registered(a, m)
       /\ \A i, j \in 1..Len(S) : i < j => cbs[a][S[i].k][2] >= cbs[a][S[j].k][2]
Ordered(a, calls) ==
  \A i, j \in 1..Len(calls) : i < j /\ calls[i].id # calls[j].id
        /\ {calls[i].id, calls[j].id} \subseteq {m.id : m \in Handled(a)} =>
     LET m == Msg(a, calls[i].id)  n == Msg(a, calls[j].id) IN
       /\ Prio(a, m) >= Prio(a, n)
       /\ (order = "in_order" /\ Prio(a, m) = Prio(a, n)) => ~Before(n, m)
       /\ \A k \in j..Len(calls) : calls[k].id # calls[i].id         \* one message after the other
\* p: [a, lo, hi, calls, ret, sends, new, gone]
Process(p) ==
  LET a == p.a
      rets == {p.calls[j].ret : j \in 1..Len(p.calls)}
      rest == inbox[a] \ DueMail(a)
      nxt == Min({p.ret, upper} \cup rets \cup {m.recv : m \in rest})
  IN
  /\ phase = "round" /\ err = ""
  /\ G("C13", a \in due /\ p.lo = now /\ p.hi = upper)
  /\ G("C14", a \notin done)
  /\ G("C15", a \in active \/ a \in due)
  /\ GG({"C11"}, ExactMail(a, p.calls))
  /\ G("C12", ExactCallbacks(a, p.calls) /\ Ordered(a, p.calls))
  /\ G("C13", \A j \in 1..Len(p.calls) : p.calls[j].lo = now /\ p.calls[j].hi = upper)
  /\ done' = done \cup {a}
  /\ inbox' = [ExtAll(inbox, p.new, LAMBDA n : {}) EXCEPT ![a] = rest]
  /\ err' = IF p.ret < now THEN "past" ELSE ""
  /\ wake' = [ExtAll(wake, p.new, LAMBDA n : Never) EXCEPT ![a] = nxt]
  /\ outbox' = [ExtAll(outbox, p.new, LAMBDA n : <<>>) EXCEPT ![a] =
                  @ \o [j \in 1..Len(p.sends) |-> [id |-> p.sends[j].id, from |-> a, to |-> p.sends[j].to, recv |-> p.sends[j].recv,
                                                 type |-> p.sends[j].type, seq |-> p.sends[j].id, rnd |-> rnd]]]
  /\ G("C15", NewIds(p.new) \cap DOMAIN cbs = {})
  /\ cbs' = ExtAll(cbs, p.new, LAMBDA n : n.cbs)
  /\ active' = (active \cup NewIds(p.new)) \ Range(p.gone)
  /\ queue' = <<queue[1] + Len(p.new), queue[2] + Len(p.gone)>>
  /\ UNCHANGED <<now, upper, end, phase, due, rnd, must, fresh, order>>

Sent == UNION {Range(outbox[a]) : a \in active}
Lost == {m \in Sent : m.to \notin active}
EndRound(n) ==
  /\ phase = "round" /\ err = ""
  /\ GG({"C13", "C14"}, due \cap active \subseteq done /\ done \subseteq due)
  /\ G("C11", must \cap active \subseteq done)
  /\ G("C15", fresh \cap active \subseteq done)
  /\ G("C11", Lost = {} /\ n = Cardinality(Sent))
  /\ LET in == [a \in DOMAIN inbox |-> inbox[a] \cup {m \in Sent : m.to = a}]
         wk == [a \in DOMAIN wake |->
                  LET T == {m.recv : m \in {x \in Sent : x.to = a}} IN
                  IF T = {} THEN wake[a] ELSE IF wake[a] = Never THEN Min(T) ELSE Min(T \cup {wake[a]})]
         nd == Due({a \in active : wk[a] # Never}, wk, now)
     IN /\ inbox' = in
        /\ wake' = wk
        /\ IF nd # {}
           THEN /\ phase' = "round" /\ due' = Due(active, wk, now)
                /\ must' = Mail(active, in, now) /\ fresh' = {a \in active : wk[a] = Never} /\ done' = {}
           ELSE /\ phase' = "ended" /\ due' = {} /\ must' = {} /\ fresh' = {} /\ done' = {}
  /\ outbox' = [a \in DOMAIN outbox |-> IF a \in active THEN <<>> ELSE outbox[a]]
  /\ rnd' = rnd + 1
  /\ UNCHANGED <<now, upper, end, active, cbs, queue, err, order>>
\* a message to nobody surfaces as an error when the round ends
Refused == /\ phase = "round" /\ G("C11", err = "" /\ Lost # {}) /\ phase' = "failed"
           /\ G("C13", due \cap active \subseteq done)
           /\ UNCHANGED <<now, upper, end, active, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, queue, err, order>>
\* as does an agent that asks to be woken in the past
Past == /\ phase = "round" /\ G("C13", err = "past") /\ phase' = "failed"
        /\ UNCHANGED <<now, upper, end, active, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, queue, err, order>>
NextEvent == Min({end} \cup {wake[a] : a \in {x \in active : wake[x] # Never}})
EndStep(ret, time) ==
  /\ GG({"C13", "C12", "C11"}, phase = "ended")
  /\ GG({"C13", "C12"}, ret = NextEvent)
  /\ G("C13", time = ret)
  /\ phase' = "idle"
  /\ now' = now
  /\ UNCHANGED <<upper, end, active, cbs, wake, inbox, outbox, due, done, rnd, must, fresh, queue, err, order>>
=============================================================================
