------------------------------ MODULE Archive_MC -------------------------------
EXTENDS Archive, TLC, Json
CONSTANTS Kinds, Values, MaxOps, Emit
VARIABLES hist,    \* the operations
          saved,   \* values given to the current archive
          got      \* values obtained from it
mcvars == <<vars, hist, saved, got>>
MCInit == Init /\ hist = <<>> /\ saved = <<>> /\ got = <<>>
Op(o) == hist' = Append(hist, o)
MCNext == /\ Len(hist) < MaxOps
          /\ \/ \E s \in Slots, k \in Kinds, v \in Values :
                  Set(s, k, v) /\ Op(<<"N", s, k, v>>) /\ UNCHANGED <<saved, got>>
             \/ \E s \in Slots : Save(s) /\ Op(<<"S", s>>) /\ saved' = Append(saved, val[s]) /\ UNCHANGED got
             \/ Len(arch) > 0 /\ Read /\ Op(<<"R">>) /\ UNCHANGED <<saved, got>>
             \/ \E s \in Slots : Load(s) /\ Op(<<"L", s>>) /\ got' = Append(got, val'[s]) /\ UNCHANGED saved
             \/ rp = Len(arch) /\ Write /\ Op(<<"W">>) /\ saved' = <<>> /\ got' = <<>>
MCSpec == MCInit /\ [][MCNext]_mcvars
\* what is read is a prefix of what was written
InOrder == Len(got) <= Len(saved) /\ got = SubSeq(saved, 1, Len(got))
\* only loading and creating change objects, one at a time
Frame == [][(val' # val) => \E s \in Slots : \A t \in Slots \ {s} : val'[t] = val[t]]_mcvars
Saving == [][(Len(saved') > Len(saved)) => val' = val /\ kind' = kind]_mcvars
EmitTests == IF Emit /\ mode = "read" /\ rp' > rp /\ rp' = Len(arch) THEN PrintT(<<"TEST", ToJson(hist')>>) ELSE TRUE
================================================================================
