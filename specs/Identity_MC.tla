------------------------------- MODULE Identity_MC -----------------------------
EXTENDS Identity, Json
CONSTANTS MaxOps, Apis, Emit
VARIABLES count, order, hist
mcvars == <<ids, count, order, hist>>
view == <<ids, count, order, IF Emit THEN hist ELSE <<>>>>
\* order: identifiers in order of creation; an entity numbers its children
MCInit == Init0({<<>>}) /\ count = (<<>> :> 0) /\ order = <<<<>>>> /\ hist = <<>>
MCNext == /\ Len(hist) < MaxOps
          /\ \E k \in 1..Len(order), a \in Apis :
               LET p == order[k] c == Append(p, count[p]) IN
               /\ Create(p, c) /\ count' = (c :> 0) @@ [count EXCEPT ![p] = @ + 1] /\ order' = Append(order, c)
               /\ hist' = Append(hist, <<k - 1, a>>)
MCSpec == MCInit /\ [][MCNext]_mcvars
EmitTests == (Emit /\ Len(hist') = MaxOps) => PrintT(<<"TEST", ToJson(hist')>>)
================================================================================
