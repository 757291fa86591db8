------------------------------- MODULE Lifecycle -------------------------------
(* The life of a simulation run as the environment and the model see it: the model is initialized, then stepped; each step is announced
   before any agent acts and reported after the model time has moved to the next event; new and removed agents are worked off between
   steps; after the last step the model is terminated and the environment concludes the run.  `mode' tells who drives the steps:
   "run" (environment::run), "env" (environment::step, by the user) or "model" (model::step, by the user). *)
EXTENDS Integers
CONSTANT Strict
VARIABLES mode, stage
lvars == <<mode, stage>>
L(c) == Strict => c
Fresh(m) == mode' = m /\ stage' = "new"
Go(from, to) == L(stage \in from) /\ stage' = to /\ mode' = mode
Initialize == Go({"new"}, "ready")
\* backlog: activations and deactivations not worked off
Begin(backlog) == Go({"ready", "stepped"}, "begun") /\ L(backlog = 0 \/ (mode = "env" /\ stage = "ready"))
Announce == Go({"begun"}, "announced")
Act == L(stage = "announced") /\ UNCHANGED lvars
Report(time, next) == Go({"announced"}, "reported") /\ L(time = next)
Finish == Go({"reported"}, "stepped")
\* between steps
Between == L(stage \in {"new", "ready", "stepped"}) /\ UNCHANGED lvars
Terminate == Go({"stepped"}, "terminated")
Conclude == Go({"terminated"}, "concluded")
Over == L(IF mode = "run" THEN stage = "concluded" ELSE stage \in {"ready", "stepped"}) /\ UNCHANGED lvars
Fail == stage' = "failed" /\ mode' = mode
================================================================================
