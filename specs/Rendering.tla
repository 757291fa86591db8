-------------------------------- MODULE Rendering ------------------------------
(* Text renderings: delimiter-separated records, which must read back as the fields that were written, and the representation of
   containers, which lists every element in order. Characters are numbers. *)
EXTENDS Integers, Sequences
NL == 10
(* Reading: an escape character makes the next character literal; between quotes delimiters and line ends are literal.
   st: [i |-> next position, field |-> , row |-> , rows |-> , quoted |-> ] *)
RECURSIVE Read(_, _, _, _, _)
Read(s, st, d, q, x) ==
  IF st.i > Len(s) THEN st
  ELSE LET c == s[st.i] IN
       IF c = x THEN (IF st.i = Len(s) THEN [st EXCEPT !.i = st.i + 1, !.bad = TRUE]
                      ELSE Read(s, [st EXCEPT !.i = st.i + 2, !.field = Append(@, s[st.i + 1])], d, q, x))
       ELSE IF c = q THEN Read(s, [st EXCEPT !.i = st.i + 1, !.quoted = ~@], d, q, x)
       ELSE IF c = d /\ ~st.quoted THEN Read(s, [st EXCEPT !.i = st.i + 1, !.field = <<>>, !.row = Append(@, st.field)], d, q, x)
       ELSE IF c = NL /\ ~st.quoted THEN Read(s, [st EXCEPT !.i = st.i + 1, !.field = <<>>, !.row = <<>>, !.rows = Append(@, Append(st.row, st.field))], d, q, x)
       ELSE Read(s, [st EXCEPT !.i = st.i + 1, !.field = Append(@, c)], d, q, x)
Start == [i |-> 1, field |-> <<>>, row |-> <<>>, rows |-> <<>>, quoted |-> FALSE, bad |-> FALSE]
Parsed(s, d, q, x) == Read(s, Start, d, q, x)
\* s consists of complete records, and they are rows
ReadsAs(s, rows, d, q, x) == LET st == Parsed(s, d, q, x) IN ~st.bad /\ ~st.quoted /\ st.field = <<>> /\ st.row = <<>> /\ st.rows = rows
(* Writing, as the library does it *)
RECURSIVE Escaped(_, _, _)
Escaped(t, q, x) == IF t = <<>> THEN <<>> ELSE (IF t[1] \in {q, x} THEN <<x, t[1]>> ELSE <<t[1]>>) \o Escaped(Tail(t), q, x)
Has(t, S) == \E i \in 1..Len(t) : t[i] \in S
Rendered(t, d, q, x) == IF Has(t, {d, x, NL, 13}) THEN <<q>> \o Escaped(t, q, x) \o <<q>> ELSE Escaped(t, q, x)
RECURSIVE Fields(_, _, _, _)
Fields(r, d, q, x) == Rendered(r[1], d, q, x) \o (IF Len(r) = 1 THEN <<NL>> ELSE <<d>> \o Fields(Tail(r), d, q, x))
RECURSIVE Records(_, _, _, _)
Records(rs, d, q, x) == IF rs = <<>> THEN <<>> ELSE Fields(rs[1], d, q, x) \o Records(Tail(rs), d, q, x)
(* Representation of values: [k |-> "atom", t |-> text] or [k |-> kind, items |-> sequence of values] *)
Brackets(k) == CASE k \in {"vector", "queue", "array", "list", "forward_list"} -> <<"[", "]">>
                 [] k \in {"set", "unordered_set", "map", "unordered_map", "flat_map"} -> <<"{", "}">>
                 [] k = "tuple" -> <<"(", ")">>
                 [] k = "pair" -> <<"", "">>
Separator(k) == CASE k = "list" -> " <-> " [] k = "forward_list" -> " -> " [] k = "pair" -> ": " [] OTHER -> ", "
RECURSIVE Text(_), Joined(_, _)
Joined(vs, sep) == IF vs = <<>> THEN "" ELSE IF Len(vs) = 1 THEN Text(vs[1]) ELSE Text(vs[1]) \o sep \o Joined(Tail(vs), sep)
Text(v) == IF v.k = "atom" THEN v.t ELSE Brackets(v.k)[1] \o Joined(v.items, Separator(v.k)) \o Brackets(v.k)[2]
================================================================================
