-------------------------------- MODULE Identity -------------------------------
(* Identifiers are sequences of digit groups; entities form a tree, every creation below an entity yields a new child.   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANT Props
VARIABLE ids
\* ids: the identifiers issued so far, roots included
Init0(roots) == ids = roots
IsChild(p, c) == Len(c) = Len(p) + 1 /\ SubSeq(c, 1, Len(p)) = p
Create(p, c) == p \in ids /\ c \notin ids /\ IsChild(p, c) /\ ids' = ids \cup {c}
\* lexicographic order
RECURSIVE Less(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Less(Tail(a), Tail(b))
RECURSIVE Pad(_, _)
Pad(s, w) == IF Len(s) >= w THEN s ELSE Pad("0" \o s, w)
RECURSIVE Join(_, _)
Join(a, w) == IF Len(a) = 1 THEN Pad(ToString(a[1]), w) ELSE Pad(ToString(a[1]), w) \o "-" \o Join(Tail(a), w)
Rendered(a, w) == IF a = <<>> THEN "" ELSE "\"" \o Join(a, w) \o "\""
\* the order is total and agrees with equality
TotalOrder == \A a, b \in ids : Cardinality({x \in {1, 2, 3} : (x = 1 /\ a = b) \/ (x = 2 /\ Less(a, b)) \/ (x = 3 /\ Less(b, a))}) = 1
Transitive == \A a, b, c \in ids : Less(a, b) /\ Less(b, c) => Less(a, c)
\* all identifiers below one root stay distinct in their rendering
Distinct == \A a, b \in ids : a # b => Rendered(a, 0) # Rendered(b, 0)
Tree == \A a \in ids : a = <<>> \/ SubSeq(a, 1, Len(a) - 1) \in ids
================================================================================
