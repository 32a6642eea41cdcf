------------------------------- MODULE FeedGen -------------------------------
(* Every short history of slots that extend or fork each other, with a few
   operations in each slot: checks on the fills model that folding what it
   publishes always gives the queue, and writes the histories for replay.     *)
EXTENDS FillsModel, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, Kind, Deep
\* fills: A, B: pushes one of two fills, O: an out event, -: consumes
\* book: b/a: adds a bid/ask, B/A: one at a worse price, p/q: a pegged bid/ask, x/y: removes the oldest bid/ask, u/d: moves the oracle, z: breaks it
Ops == IF Kind = "fills" THEN IF Deep THEN {"", "A", "B", "O", "-", "AA", "A-", "--", "BA"} ELSE {"A", "B", "O", "-", "AA"}
       ELSE IF Deep THEN {"b", "B", "a", "p", "q", "x", "y", "u", "d", "z", "xb"} ELSE {"b", "B", "p", "q", "x", "u", "z"}
Starts == IF Kind = "fills" THEN {0, 2} ELSE {0}
Wrapped == IF Kind = "fills" THEN {486, 487} ELSE {}
Histories(n) == {h \in [1..n -> [p : 1..n, ops : Ops]] : \A k \in 1..n : h[k].p <= k}
Use == {[start |-> s, slots |-> h] : s \in Starts, h \in Histories(3)} \cup {[start |-> s, slots |-> h] : s \in Wrapped, h \in Histories(2)}
VARIABLE c
Init == c \in Use
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
ASSUME OutFile = "" \/ ndJsonSerialize(OutFile, SetToSeq(Use))

\* -- the fills model with a ring of three -------------------------------------------------------
Cap == 3
Fill(id) == id = 1 \/ id = 2
Letter(o) == CASE o = "A" -> 1 [] o = "B" -> 2 [] o = "O" -> 3
Push(q, id) == LET full == Len(q.ev) = Cap IN
  [lo |-> IF full THEN q.lo + 1 ELSE q.lo, seq |-> q.seq + 1, ev |-> Append(IF full THEN Tail(q.ev) ELSE q.ev, id)]
Parts(s) == CASE s = "" -> <<>> [] s = "AA" -> <<"A", "A">> [] s = "A-" -> <<"A">> [] s = "--" -> <<>> [] s = "-" -> <<>> [] s = "BA" -> <<"B", "A">> [] OTHER -> <<s>>
RECURSIVE PushAll(_, _)
PushAll(q, s) == IF s = <<>> THEN q ELSE PushAll(Push(q, Letter(Head(s))), Tail(s))
RECURSIVE Nodes(_, _, _)
Nodes(h, k, ns) == IF k > Len(h) THEN ns ELSE Nodes(h, k + 1, Append(ns, PushAll(ns[h[k].p], Parts(h[k].ops))))
Root(n) == LET q == [lo |-> 0, seq |-> 0, ev |-> <<>>] IN PushAll(q, [k \in 1..n |-> IF k % 2 = 0 THEN "B" ELSE "A"])
\* the client: what it believes happened, by event number
Fold(k, p, q) == LET new == NewFills(p, q, Cap, Fill)  gone == GoneFills(p, q, Cap, Fill) IN
  {x \in k : x[1] \notin gone} \cup {<<s, Id(q, s)>> : s \in new}
RECURSIVE Follow(_, _, _, _, _, _)
Follow(h, ns, i, last, k, mx) ==
  IF i > Len(h) THEN TRUE
  ELSE IF h[i].ops = "" THEN Follow(h, ns, i + 1, last, k, mx)
  ELSE LET q == ns[i + 1]  k1 == Fold(k, last, q)  m1 == IF q.seq > mx THEN q.seq ELSE mx IN
       /\ \A s \in (IF m1 > Cap THEN m1 - Cap ELSE 0)..(m1 - 1) :
            {x \in k1 : x[1] = s} = (IF Fill(Id(q, s)) THEN {<<s, Id(q, s)>>} ELSE {})
       /\ Follow(h, ns, i + 1, q, k1, m1)
Known(q) == {<<s, Id(q, s)>> : s \in {s \in q.lo..(q.seq - 1) : Fill(Id(q, s))}}
FoldIsQueue == Kind = "fills" =>
  LET r == Root(IF c.start > 4 THEN 4 ELSE c.start) IN Follow(c.slots, Nodes(c.slots, 1, <<r>>), 1, r, Known(r), r.seq)
=============================================================================
