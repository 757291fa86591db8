----------------------------- MODULE BlockPool_MC -----------------------------
(* The implementation's allocation scheme (slots reused last-in first-out, index = round * capacity + slot) as a refinement
   of BlockPool, plus one test per explored (state, operation). *)
EXTENDS BlockPool, Json
CONSTANTS Cap, MaxOps, Emit
VARIABLES free, round, hist, issued
mcvars == <<pvars, free, round, hist, issued>>
view == <<store, highest, free, round, issued>>
MCInit == Init0(Cap) /\ free = [i \in 1..Cap |-> i - 1] /\ round = 0 /\ hist = <<>> /\ issued = <<>>
Slot == Head(free)
Fresh == IF round * Cap + Slot > highest THEN round ELSE round + 1
MCEmplace == /\ Len(hist) < MaxOps /\ free # <<>>
             /\ LET id == Fresh * Cap + Slot IN
                  /\ Emplace(Len(hist), id)
                  /\ issued' = Append(issued, id) /\ round' = Fresh /\ free' = Tail(free)
             /\ hist' = Append(hist, <<0, Len(hist)>>)
MCFull == Len(hist) < MaxOps /\ free = <<>> /\ EmplaceFull /\ hist' = Append(hist, <<0, Len(hist)>>) /\ UNCHANGED <<free, round, issued>>
MCErase == /\ Len(hist) < MaxOps
           /\ \E k \in 1..Len(issued) :
                /\ hist' = Append(hist, <<1, k - 1>>)
                /\ IF issued[k] \in DOMAIN store
                   THEN Erase(issued[k]) /\ free' = <<issued[k] % Cap>> \o free
                   ELSE EraseVacant(issued[k]) /\ UNCHANGED free
           /\ UNCHANGED <<round, issued>>
MCRaw == /\ Len(hist) < MaxOps
         /\ \E i \in {0, Cap, 2 * Cap + 1} :
              /\ \A k \in 1..Len(issued) : issued[k] # i
              /\ EraseVacant(i) /\ hist' = Append(hist, <<2, i>>)
         /\ UNCHANGED <<free, round, issued>>
MCSpec == MCInit /\ [][MCEmplace \/ MCFull \/ MCErase \/ MCRaw]_mcvars
EmitTests == (Emit /\ Len(hist') > Len(hist)) => PrintT(<<"TEST", ToJson(hist')>>)
FreeIsComplement == {free[k] : k \in 1..Len(free)} = {s \in 0..(Cap - 1) : \A i \in DOMAIN store : i % Cap # s}
IssuedIncreasing == \A j, k \in 1..Len(issued) : j < k => issued[j] < issued[k]
=============================================================================
