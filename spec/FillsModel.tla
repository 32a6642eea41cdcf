----------------------------- MODULE FillsModel -----------------------------
(* What a fills feed publishes between two snapshots of an event queue. A
   snapshot has the events lo..seq-1 that are still in the ring (of size cap);
   events are compared by id, Fill(id) tells fills.                           *)
EXTENDS Integers, Sequences
Id(q, s) == IF s >= q.lo /\ s < q.seq THEN q.ev[s - q.lo + 1] ELSE 0
Hi(p, c) == IF p.seq > c.seq THEN p.seq ELSE c.seq
Lo(p, c, cap) == IF Hi(p, c) > cap THEN Hi(p, c) - cap ELSE 0
Both(p, c, cap) == Lo(p, c, cap)..(Hi(p, c) - 1)
NewFills(p, c, cap, Fill(_)) == {s \in Both(p, c, cap) : Fill(Id(c, s)) /\ Id(p, s) # Id(c, s)}
GoneFills(p, c, cap, Fill(_)) == {s \in Both(p, c, cap) : Fill(Id(p, s)) /\ Id(p, s) # Id(c, s)}
=============================================================================
