---------------------------------- MODULE Feed ---------------------------------
(* A recorded feed of NYSE OpenBook Ultra (version 1.2b): a file of records of 71 bytes, numbers with the most significant byte
   first.  Records of full (230) and delta (231) updates become events, in their order; all others and a partial record at the
   end are passed over.  `sink` is what the reader has reported so far, `rest` the records that it has not yet read. *)
EXTENDS Integers, Sequences, Big
VARIABLES rest, sink
fvars == <<rest, sink>>
Size == 71
Updates == {230, 231}
\* a field of w bytes at offset o (counted from zero)
Num16(r, o) == r[o + 1] * 256 + r[o + 2]
Num32(r, o) == Add(Mul(Int2Big(Num16(r, o)), Int2Big(65536)), Int2Big(Num16(r, o + 2)))
White == {9, 10, 11, 12, 13, 32}
RECURSIVE TrimRight(_)
TrimRight(s) == IF s # <<>> /\ s[Len(s)] \in White THEN TrimRight(SubSeq(s, 1, Len(s) - 1)) ELSE s
RECURSIVE Ten(_)
Ten(n) == IF n = 0 THEN One ELSE Mul(Int2Big(10), Ten(n - 1))
IsUpdate(r) == Num16(r, 4) \in Updates
Buy == 66
\* the meaning of an update: microseconds since midnight, and a price of num / 10^scale dollars
Event(r) == [symbol |-> TrimRight(SubSeq(r, 11, 21)), status |-> r[35], reason |-> r[58],
             time |-> Add(Mul(Num32(r, 27), Int2Big(1000)), Int2Big(Num16(r, 31))),
             num |-> Num32(r, 41), scale |-> r[41], quantity |-> Num32(r, 49), buy |-> r[56] = Buy]
\* the main session: orders that are added or cancelled while the instrument is open
Open == 79
InSession(e, symbol) == e.status = Open /\ e.reason \in {79, 67} /\ e.symbol = symbol
\* a quote of `value` cents for `lot` units stands for the price of an event
SamePrice(e, value, lot) == lot[1] = 1 /\ Mul(value, Ten(e.scale)) = Mul(Mul(e.num, Int2Big(100)), lot)
FInit(file) == rest = file /\ sink = <<>>
Read == rest # <<>> /\ rest' = Tail(rest) /\ sink' = IF IsUpdate(Head(rest)) THEN Append(sink, Event(Head(rest))) ELSE sink
================================================================================
