------------------------------- MODULE Outputs_MC ------------------------------
EXTENDS Outputs, FiniteSets, TLC, Json
CONSTANTS Names, Streams, MaxOps, Emit
VARIABLES n, hist, seen
\* seen: what was put, in order, <<name, time, values, streams it had to reach>>
mcvars == <<vars, n, hist, seen>>
MCInit == outs = <<>> /\ streams = [i \in 1..Streams |-> <<>>] /\ log = <<>> /\ n = 0 /\ hist = <<>> /\ seen = <<>>
Vals(k, i) == IF k = "pair" THEN <<ToString(i), ToString(i + 100)>> ELSE <<ToString(i)>>
H(x) == n < MaxOps /\ n' = n + 1 /\ hist' = IF Emit THEN Append(hist, x) ELSE hist
MCNext == \/ \E nm \in Names, k \in {"int", "pair"} : Create(nm, k) /\ H(<<"create", nm, k>>) /\ UNCHANGED seen
          \/ Emit /\ \E nm \in Names, k \in {"int", "pair"} : ~CanCreate(nm, k) /\ UNCHANGED vars /\ H(<<"create", nm, k>>) /\ UNCHANGED seen
          \/ \E nm \in Names, s \in 1..Streams : Attach(nm, s) /\ H(<<"attach", nm, s>>) /\ UNCHANGED seen
          \/ Emit /\ \E nm \in Names : ~Known(nm) /\ UNCHANGED vars /\ H(<<"attach", nm, 1>>) /\ UNCHANGED seen
          \/ \E nm \in DOMAIN outs : LET vs == Vals(outs[nm].kind, n) IN
               Put(nm, ToString(n), vs) /\ H(<<"put", nm>>) /\ seen' = Append(seen, [n |-> nm, t |-> ToString(n), v |-> vs, s |-> outs[nm].streams])
MCSpec == MCInit /\ [][MCNext]_mcvars
Sel(nm) == SelectSeq(seen, LAMBDA x : x.n = nm)
\* every value is kept once, in order, under its own name only
Kept == \A nm \in DOMAIN outs : outs[nm].values = [i \in 1..Len(Sel(nm)) |-> <<Sel(nm)[i].t>> \o Sel(nm)[i].v]
NoMixing == \A i \in 1..Len(seen) : seen[i].n \in DOMAIN outs
\* each line of a stream is explained by a value that was put while the stream was attached, and appears as often as it was attached
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Written == \A s \in 1..Streams : \A i \in 1..Len(seen) : \A k \in 1..Len(seen[i].v) :
             Count(streams[s], <<seen[i].t, seen[i].v[k]>>) = Count(seen[i].s, s)
RECURSIVE Expected(_)
Expected(x) == IF x = <<>> THEN 0 ELSE Len(x[1].v) * Len(x[1].s) + Expected(Tail(x))
RECURSIVE Total(_)
Total(s) == IF s = 0 THEN 0 ELSE Len(streams[s]) + Total(s - 1)
NothingElse == Total(Streams) = Expected(seen)
Ordered == \A s \in 1..Streams : \A i, j \in 1..Len(streams[s]) : i < j =>
             (CHOOSE a \in 1..Len(seen) : seen[a].t = streams[s][i][1]) <= (CHOOSE b \in 1..Len(seen) : seen[b].t = streams[s][j][1])
EmitTests == (Emit /\ n' = MaxOps) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
