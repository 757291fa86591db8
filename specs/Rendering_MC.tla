----------------------------- MODULE Rendering_MC ------------------------------
EXTENDS Rendering, TLC, Json
CONSTANTS FieldLen, MaxFields, MaxRows, Emit
VARIABLES rows
\* an ordinary character, the delimiter, the quote, the escape and a line end
D == 44  Q == 34  X == 92
Chars == {97, D, Q, X, NL}
Texts == UNION {[1..n -> Chars] : n \in 0..FieldLen}
Rows == UNION {[1..n -> Texts] : n \in 1..MaxFields}
MCInit == rows = <<>>
MCNext == Len(rows) < MaxRows /\ \E r \in Rows : rows' = Append(rows, r)
MCSpec == MCInit /\ [][MCNext]_rows
\* what is written is read back
Faithful == ReadsAs(Records(rows, D, Q, X), rows, D, Q, X)
EmitTests == (Emit /\ Len(rows') = MaxRows) => PrintT(<<"TEST", ToJson(rows')>>)
================================================================================
