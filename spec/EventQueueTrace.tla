-------------------------- MODULE EventQueueTrace --------------------------
(* The event queue as a bounded first-in first-out sequence; checks what the
   real ring buffer did. *)
EXTENDS BigInt, Sequences, Json, TLC
CONSTANTS TraceFile, Stride
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)
Capacity == 488
Q(ev, seq, ok, out) == [ev |-> ev, seq |-> seq, ok |-> ok, out |-> out]
Push(q, id) == IF Len(q.ev) >= Capacity THEN Q(q.ev, q.seq, FALSE, id) ELSE Q(Append(q.ev, id), Add(q.seq, 1), TRUE, -1)
Pop(q) == IF q.ev = <<>> THEN Q(q.ev, q.seq, FALSE, -1) ELSE Q(Tail(q.ev), q.seq, TRUE, Head(q.ev))
Revert(q, to) == IF to > Len(q.ev) THEN Q(q.ev, q.seq, FALSE, -1)
                 ELSE Q(SubSeq(q.ev, 1, to), Sub(q.seq, Len(q.ev) - to), TRUE, -1)
Expect(c) == CASE c.op.f = "push" -> Push(c.pre, c.op.id) [] c.op.f = "pop" -> Pop(c.pre) [] c.op.f = "revert" -> Revert(c.pre, c.op.to)
C11_Inv == LET c == Trace[l]  x == Expect(c) IN
  /\ Rule(l, "C11 the queue keeps events in order, loses none and repeats none", Same(c.post.ev, x.ev))
  /\ Rule(l, "C11 the queue's event number counts pushes", Eq(c.post.seq, x.seq))
  /\ Rule(l, "C11 the queue refuses exactly what it cannot do", (c.res.ok = 1) <=> x.ok)
  /\ Rule(l, "C11 the event the queue hands out", Eq(c.res.out, x.out))
  /\ Rule(l, "C11 length, emptiness, fullness and front of the queue",
       /\ c.post.n = Len(c.post.ev) /\ (c.post.empty = 1) = (c.post.ev = <<>>) /\ (c.post.full = 1) = (Len(c.post.ev) = Capacity)
       /\ Eq(c.post.front, IF c.post.ev = <<>> THEN -1 ELSE c.post.ev[1]))
=============================================================================
