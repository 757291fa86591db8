------------------------------ MODULE Lifecycle_MC -----------------------------
(* Any number of agents acting, asking for later times, creating and removing agents; the protocol has to leave the driver room to
   finish, and every act lies between an announcement and a report. *)
EXTENDS Lifecycle
CONSTANTS End, MaxBacklog
VARIABLES time, next, backlog, steps, announced, reported, terminated
mcvars == <<lvars, time, next, backlog, steps, announced, reported, terminated>>
MCInit == mode \in {"run", "env", "model"} /\ stage = "new" /\ time = 0 /\ next = End /\ backlog = 0 /\ steps = 0 /\ announced = 0 /\ reported = 0 /\ terminated = 0
Rest == UNCHANGED <<announced, reported, terminated>>
Setup == Initialize /\ backlog' \in 0..MaxBacklog /\ UNCHANGED <<time, next, steps>> /\ Rest
Work == stage \in {"ready", "stepped"} /\ backlog > 0 /\ Between /\ backlog' = 0 /\ UNCHANGED <<time, next, steps>> /\ Rest
Start == time < End /\ Begin(backlog) /\ steps' = steps + 1 /\ next' = End /\ UNCHANGED <<time, backlog>> /\ Rest
Before == stage = "begun" /\ Announce /\ announced' = announced + 1 /\ UNCHANGED <<time, next, backlog, steps, reported, terminated>>
Agent == stage = "announced" /\ Act /\ next' \in {n \in time + 1..End : n <= next} /\ backlog' \in backlog..MaxBacklog /\ UNCHANGED <<time, steps>> /\ Rest
After == stage = "announced" /\ Report(next, next) /\ time' = next /\ reported' = reported + 1 /\ UNCHANGED <<next, backlog, steps, announced, terminated>>
Stop == Finish /\ UNCHANGED <<time, next, backlog, steps>> /\ Rest
Quit == mode = "run" /\ time >= End /\ Terminate /\ terminated' = terminated + 1 /\ UNCHANGED <<time, next, backlog, steps, announced, reported>>
Last == Conclude /\ UNCHANGED <<time, next, backlog, steps>> /\ Rest
Done == (IF mode = "run" THEN stage = "concluded" ELSE stage = "stepped" /\ time >= End) /\ Over /\ UNCHANGED mcvars
MCNext == Setup \/ Work \/ Start \/ Before \/ Agent \/ After \/ Stop \/ Quit \/ Last \/ Done
MCSpec == MCInit /\ [][MCNext]_mcvars /\ WF_mcvars(Setup \/ Work \/ Start \/ Before \/ After \/ Stop \/ Quit \/ Last)
Paired == announced - reported \in {0, 1} /\ steps - announced \in {0, 1} /\ (announced > reported <=> stage = "announced")
TerminatedOnce == terminated <= 1 /\ (stage = "concluded" => terminated = 1 /\ time >= End)
NoBacklog == stage = "begun" => backlog = 0 \/ (mode = "env" /\ steps = 1)
Ends == <>(stage \in {"concluded", "stepped"} /\ time >= End)
================================================================================
