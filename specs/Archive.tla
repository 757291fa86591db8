-------------------------------- MODULE Archive --------------------------------
\* C30: values written to an archive are read back equal, in the order written, whatever the objects they are read into
\* held before; writing changes nothing.
EXTENDS Naturals, Sequences
CONSTANTS Slots
VARIABLES kind,   \* the type of the object in a slot
          val,    \* its value
          arch,   \* the values in the archive
          mode,   \* "write" or "read"
          rp      \* number of values read
vars == <<kind, val, arch, mode, rp>>
NoKind == "none"
Init == /\ kind = [s \in Slots |-> NoKind]
        /\ val = [s \in Slots |-> ""]
        /\ arch = <<>>
        /\ mode = "write"
        /\ rp = 0
\* a new object
Set(s, k, v) == /\ kind' = [kind EXCEPT ![s] = k]
                /\ val' = [val EXCEPT ![s] = v]
                /\ UNCHANGED <<arch, mode, rp>>
Save(s) == /\ mode = "write" /\ kind[s] # NoKind
           /\ arch' = Append(arch, [k |-> kind[s], v |-> val[s]])
           /\ UNCHANGED <<kind, val, mode, rp>>
Read == mode = "write" /\ mode' = "read" /\ rp' = 0 /\ UNCHANGED <<kind, val, arch>>
Load(s) == /\ mode = "read" /\ rp < Len(arch)
           /\ kind[s] = arch[rp + 1].k
           /\ val' = [val EXCEPT ![s] = arch[rp + 1].v]
           /\ rp' = rp + 1
           /\ UNCHANGED <<kind, arch, mode>>
Write == mode = "read" /\ mode' = "write" /\ arch' = <<>> /\ rp' = 0 /\ UNCHANGED <<kind, val>>
================================================================================
