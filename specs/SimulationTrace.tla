---------------------------- MODULE SimulationTrace ----------------------------
EXTENDS Simulation, Lifecycle, Json, IOUtils
VARIABLES l, first, len, again
Trace == ndJsonDeserialize(IOEnv.TRACE)
tvars == <<vars, lvars, l, first, len, again>>
E == Trace[l]
Is(e) == l <= Len(Trace) /\ E.e = e /\ l' = l + 1
K == UNCHANGED <<first, len, again>>
TraceInit == Init0(0, "random") /\ mode = "run" /\ stage = "new" /\ l = 1 /\ first = 0 /\ len = 0 /\ again = 0
TNew == /\ Is("new") /\ Fresh(E.mode) /\ first' = l /\ len' = 0 /\ again' = 0
        /\ now' = 0 /\ upper' = 0 /\ end' = E.end /\ phase' = "idle" /\ active' = {} /\ cbs' = <<>> /\ wake' = <<>>
        /\ inbox' = <<>> /\ outbox' = <<>> /\ due' = {} /\ done' = {} /\ rnd' = 0 /\ must' = {} /\ fresh' = {}
        /\ queue' = <<0, 0>> /\ err' = "" /\ order' = E.order
\* the same scenario again, with other numbers of threads: every event has to repeat exactly
Complete == again > 0 => l - again - 1 = len
TRerun == /\ Is("rerun") /\ GG({"C12", "C14"}, Complete)
          /\ len' = (IF again = 0 THEN l - first - 1 ELSE len) /\ again' = l /\ first' = first
          /\ UNCHANGED <<vars, lvars>>
TAgain == /\ l <= Len(Trace) /\ again > 0 /\ E.e \notin {"new", "rerun", "fin"} /\ l' = l + 1 /\ K
          /\ GG({"C12", "C14"}, l - again <= len /\ E = Trace[first + (l - again)])
          /\ UNCHANGED <<vars, lvars>>
TFin == Is("fin") /\ GG({"C12", "C14"}, Complete) /\ K /\ UNCHANGED <<vars, lvars>>
First == again = 0 /\ K
TParam == First /\ Is("parameters") /\ G("C14", FALSE) /\ UNCHANGED <<vars, lvars>>
Backlog == queue[1] + queue[2]
TCreate == First /\ Is("create") /\ G("C15", E.found) /\ Create(E.a, E.cbs) /\ UNCHANGED lvars
TDeact == First /\ Is("deactivate") /\ Deactivate(E.a) /\ UNCHANGED lvars
TAct == First /\ Is("activated") /\ Handle(1, E.n) /\ Between
TDea == First /\ Is("deactivated") /\ Handle(2, E.n) /\ Between
TBegin == First /\ Is("step") /\ BeginStep(E.lo, E.hi) /\ Begin(Backlog) /\ L(E.lo < end)
TProc == First /\ Is("proc") /\ G("C15", E.idok) /\ Process(E) /\ Act
TRound == First /\ Is("round") /\ EndRound(E.n) /\ Act
TErr == First /\ Is("error") /\ Fail /\ \/ E.kind = "recipient" /\ Refused
                                        \/ E.kind = "past" /\ Past
TEnd == First /\ Is("endstep") /\ EndStep(E.ret, E.time) /\ Finish
\* the environment is told about each step, and the model about the beginning and the end
TInitialize == First /\ Is("initialize") /\ Initialize /\ UNCHANGED vars
TBefore == First /\ Is("before") /\ Announce /\ UNCHANGED vars
TAfter == First /\ Is("after") /\ L(phase = "ended") /\ Report(E.time, NextEvent) /\ UNCHANGED vars
TTerminate == First /\ Is("terminate") /\ Terminate /\ UNCHANGED vars
TConclude == First /\ Is("conclude") /\ Conclude /\ UNCHANGED vars
\* the run is over: an environment runs until the end of the simulation, and stops there
TDone == First /\ Is("done") /\ phase = "idle" /\ G("C13", E.time >= end) /\ Over /\ UNCHANGED vars
TraceNext == TNew \/ TRerun \/ TAgain \/ TCreate \/ TDeact \/ TAct \/ TDea \/ TBegin \/ TProc \/ TRound \/ TErr \/ TEnd \/ TDone \/ TFin \/ TParam
          \/ TInitialize \/ TBefore \/ TAfter \/ TTerminate \/ TConclude
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceAccepted == PrintT(<<"REACHED", TLCGet("stats").diameter - 1>>) /\ TLCGet("stats").diameter - 1 = Len(Trace)
=============================================================================
