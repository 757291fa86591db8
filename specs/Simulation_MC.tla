----------------------------- MODULE Simulation_MC -----------------------------
(* The engine with freely chosen agent behaviour: every choice of wake-up times, messages (also late and to nobody),
   creations and deactivations within the bounds, in every order of processing the agents of a round.                  *)
EXTENDS Simulation, Json, SequencesExt
CONSTANTS NA,        \* agents at the start
          Budget,    \* number of processings that choose freely; later ones ask for the end
          Delays,    \* message delays plus one: 0 is one unit too late
          Dts, MTypes, Dynamic, Strangers, Emit, Order, End
VARIABLES ever, got, hist, budget, nid
mcvars == <<vars, ever, got, hist, budget, nid>>
view == <<vars, ever, got, budget, nid>>
CB == <<<<0, 0>>, <<0, 5>>, <<1, 3>>>>      \* every agent: two callbacks for type 0, one for type 1, none for type 2
MCInit == /\ now = 0 /\ upper = 0 /\ end = End /\ phase = "idle" /\ active = 0..(NA - 1)
          /\ cbs = [a \in 0..(NA - 1) |-> CB] /\ wake = [a \in 0..(NA - 1) |-> Never]
          /\ inbox = [a \in 0..(NA - 1) |-> {}] /\ outbox = [a \in 0..(NA - 1) |-> <<>>]
          /\ due = {} /\ done = {} /\ rnd = 0 /\ must = {} /\ fresh = {} /\ queue = <<NA, 0>> /\ err = "" /\ order = Order
          /\ ever = {} /\ got = {} /\ hist = <<>> /\ budget = Budget /\ nid = 1
ghost == <<ever, got, hist, budget, nid>>
MsgSeq(a) == SetToSortSeq(Handled(a), LAMBDA m, n : \/ Prio(a, m) > Prio(a, n)
                                                    \/ Prio(a, m) = Prio(a, n) /\ (Before(m, n) \/ (~Before(n, m) /\ m.id < n.id)))
CbSeq(a, m) == SetToSortSeq(Registered(a, m), LAMBDA i, j : cbs[a][i][2] > cbs[a][j][2] \/ (cbs[a][i][2] = cbs[a][j][2] /\ i < j))
RECURSIVE Calls(_, _, _)
Calls(a, ms, ret) == IF ms = <<>> THEN <<>>
                     ELSE [i \in 1..Len(CbSeq(a, Head(ms))) |-> [id |-> Head(ms).id, k |-> CbSeq(a, Head(ms))[i], ret |-> ret, lo |-> now, hi |-> upper]]
                          \o Calls(a, Tail(ms), ret)
T(d) == IF d = 99 THEN upper ELSE IF d = 98 THEN now - 1 ELSE IF now + d > upper THEN upper ELSE now + d
Sends(a) == {<<>>} \cup {<<[to |-> to, delay |-> d, type |-> ty]>> : to \in (DOMAIN cbs \cup Strangers), d \in {x - 1 : x \in Delays}, ty \in MTypes}
MCProcess ==
  /\ phase = "round" /\ err = ""
  /\ \E a \in due \ done : \E d \in IF budget > 0 THEN Dts ELSE {99}, rd \in IF budget > 0 /\ Handled(a) # {} THEN {0, 1, 99} ELSE {99},
        s \in IF budget > 0 THEN Sends(a) ELSE {<<>>},
        dyn \in IF budget > 0 /\ Dynamic THEN {0, 1, 2} ELSE {0} :
       LET new == IF dyn = 1 /\ Cardinality(DOMAIN cbs) = NA THEN <<[a |-> NA, cbs |-> CB]>> ELSE <<>>
           gone == IF dyn = 2 THEN IF Cardinality(active) > 1 /\ Max(active) # a THEN <<Max(active)>> ELSE <<>> ELSE <<>>
           p == [a |-> a, lo |-> now, hi |-> upper, calls |-> Calls(a, MsgSeq(a), T(rd)), ret |-> T(d),
                 sends |-> [i \in 1..Len(s) |-> [id |-> nid, to |-> s[i].to, type |-> s[i].type,
                                                 recv |-> IF now + s[i].delay < 0 THEN 0 ELSE now + s[i].delay]],
                 new |-> new, gone |-> gone]
       IN /\ Process(p)
          /\ nid' = nid + Len(s)
          /\ ever' = ever \cup {[id |-> p.sends[i].id, to |-> p.sends[i].to, recv |-> p.sends[i].recv, type |-> p.sends[i].type, from |-> a, at |-> now] : i \in 1..Len(s)}
          /\ got' = got \cup {<<p.calls[j].id, now, a>> : j \in 1..Len(p.calls)}
          /\ budget' = IF budget > 0 THEN budget - 1 ELSE 0
          /\ hist' = Append(hist, <<a, d, rd, s, Len(new), gone, Len(p.calls)>>)
MCRound == EndRound(Cardinality(Sent)) /\ UNCHANGED ghost
MCRefused == Lost # {} /\ due \cap active \subseteq done /\ Refused /\ UNCHANGED ghost
MCPast == err = "past" /\ Past /\ UNCHANGED ghost
MCEnd == EndStep(NextEvent, NextEvent) /\ UNCHANGED ghost
MCBegin == (IF phase = "idle" /\ (due = {} /\ rnd = 0) THEN BeginStep(0, end) ELSE NextEvent < end /\ BeginStep(NextEvent, end)) /\ UNCHANGED ghost
Done == (phase = "idle" /\ rnd > 0 /\ NextEvent >= end) \/ phase = "failed"
Stutter == Done /\ UNCHANGED mcvars
MCNext == MCProcess \/ MCRound \/ MCRefused \/ MCPast \/ MCEnd \/ MCBegin \/ Stutter
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(MCNext)
EmitTests == (Emit /\ Len(hist') > Len(hist) /\ budget > 0) => PrintT(<<"TEST", ToJson(hist')>>)
(*------------------------------------------------- properties --------------------------------------------------*)
GotIds == {g[1] : g \in got}
InOut(m) == \E a \in DOMAIN outbox : \E i \in 1..Len(outbox[a]) : outbox[a][i].id = m.id
InBox(m) == m.to \in DOMAIN inbox /\ \E x \in inbox[m.to] : x.id = m.id
\* C11: at most once, only at the addressee, never early, and as soon as possible
ExactlyOnce == /\ \A g, h \in got : g[1] = h[1] => g = h
               /\ \A g \in got : \E m \in ever : m.id = g[1] /\ m.to = g[3] /\ g[2] = (IF m.recv > m.at THEN m.recv ELSE m.at)
\* nothing is lost: a message that is nowhere was received or ignored, or its sender or addressee left the model
Conserved == \A m \in ever : \/ InOut(m) \/ InBox(m) \/ m.id \in GotIds \/ m.type \notin {0, 1}
                             \/ m.to \notin active
NothingOverdue == phase = "ended" => \A a \in active : \A m \in inbox[a] : m.recv > now
\* C13: time only moves forward, and in the end everybody ran and nothing is pending
Forward == [][now' >= now]_mcvars
Terminates == <>Done
EverybodyRan == phase = "ended" => \A a \in active : wake[a] # Never => wake[a] > now
\* C15
Population == \A a \in DOMAIN cbs : a \notin active => a \notin (due \ done) \/ phase = "round"
===============================================================================
