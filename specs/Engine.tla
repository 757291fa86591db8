--------------------------------- MODULE Engine --------------------------------
(* The matching engine: one book per instrument, created when the first order for the instrument arrives. *)
EXTENDS Books
CONSTANT Props
VARIABLES
  cfg,       \* configuration of the books the engine's factory makes
  books,     \* [instrument -> book]
  reps       \* [instrument -> reports that are in the book]
vars == <<cfg, books, reps>>
G(p, c) == (p \in Props => c) = TRUE      \* evaluated as a condition: no branching on its disjunctions
Init0(c) == cfg = c /\ books = <<>> /\ reps = <<>>

With(t) == IF t \in DOMAIN books THEN books[t] ELSE EmptyBook
Old(t) == IF t \in DOMAIN reps THEN reps[t] ELSE <<>>
\* an order for instrument t; id is the identifier of the placement, if there is one
Insert(t, o, id) ==
  LET x == Inserted(cfg, With(t), o)
      y == IF Places(x) THEN Admit(x, o, id) ELSE x
  IN /\ Places(x) => id \notin With(t).u /\ id # NONE
     /\ books' = (t :> y.b) @@ books
     /\ reps' = (t :> (Old(t) \o y.reps)) @@ reps
     /\ UNCHANGED cfg
Cancel(t, id) ==
  /\ IF t \notin DOMAIN books THEN UNCHANGED <<books, reps>>
     ELSE LET x == CancelledOrder(books[t], id) IN books' = [books EXCEPT ![t] = x.b] /\ reps' = [reps EXCEPT ![t] = @ \o x.reps]
  /\ UNCHANGED cfg
\* the user collects the reports of one book
Clear(t) == reps' = (IF t \in DOMAIN reps THEN [reps EXCEPT ![t] = <<>>] ELSE reps) /\ UNCHANGED <<cfg, books>>

(*---------------------------------------------------- design ------------------------------------------------------*)
OwnReports == \A t \in DOMAIN reps : \A k \in 1..Len(reps[t]) : reps[t][k].owner % 10 = t
SameDomains == DOMAIN books = DOMAIN reps
=============================================================================
