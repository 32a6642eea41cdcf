------------------------------ MODULE BookSide ------------------------------
(* One side of an order book as a pair of ordered collections (fixed-price and
   oracle-pegged orders), the operations on it and the questions it answers. *)
EXTENDS Book

Tree(s, t) == IF t = FixTree THEN s.fix.o ELSE s.peg.o
WithTree(s, t, os) == IF t = FixTree THEN [s EXCEPT !.fix = [n |-> Len(os), o |-> os]]
                      ELSE [s EXCEPT !.peg = [n |-> Len(os), o |-> os]]
Find(os, id) == SelectSeq(os, LAMBDA o : Eq(o.id, id))
Empty == [fix |-> [n |-> 0, o |-> <<>>], peg |-> [n |-> 0, o |-> <<>>]]
UsedNodes(s) == NodesOf(Len(s.fix.o)) + NodesOf(Len(s.peg.o))
\* fresh storage an insertion into tree t needs (a leaf, and a branch if it is not the first)
NeedNodes(s, t) == IF Tree(s, t) = <<>> THEN 1 ELSE 2
Fits(s, t) == SideCap - UsedNodes(s) >= NeedNodes(s, t)
\* how many more orders fit into the fixed tree
Room(s) == LET free == SideCap - UsedNodes(s)
           IN IF s.fix.o # <<>> THEN free \div 2 ELSE IF free = 0 THEN 0 ELSE 1 + (free - 1) \div 2

\* every operation yields [s: the side afterwards, out: removed order's id or -1, px: its price or -1, ok]
Res(s, out, px, ok) == [s |-> s, out |-> out, px |-> px, ok |-> ok]
DoInsert(side, s, t, o) ==
  LET os == Tree(s, t)  old == Find(os, o.id)
  IN IF old # <<>> THEN Res(WithTree(s, t, [k \in DOMAIN os |-> IF Eq(os[k].id, o.id) THEN o ELSE os[k]]), o.id, -1, TRUE)
     ELSE IF ~Fits(s, t) THEN Res(s, -1, -1, FALSE)
     ELSE Res(WithTree(s, t, Insert(side, os, o)), -1, -1, TRUE)
DoRemove(s, t, id) ==
  LET os == Tree(s, t) IN
  IF Find(os, id) = <<>> THEN Res(s, -1, -1, TRUE) ELSE Res(WithTree(s, t, Without(os, id)), id, -1, TRUE)
\* one order whose time is over goes: the earliest of the given tree, else of the other
DoExpire(s, t, now) ==
  LET In(x) == Tree(s, x)[Earliest(Tree(s, x))].id
  IN IF Evictable(Tree(s, t), now) THEN DoRemove(s, t, In(t))
     ELSE IF Evictable(Tree(s, 1 - t), now) THEN DoRemove(s, 1 - t, In(1 - t)) ELSE Res(s, -1, -1, TRUE)
\* price an order has for ranking purposes; pegged ones out of range count as the lowest price
RankPx(t, o, ora) == IF t = FixTree THEN o.px ELSE LET p == PegPrice(o, ora) IN Max(p, 1)
DoWorst(side, s, ora) ==
  IF s.fix.o = <<>> /\ s.peg.o = <<>> THEN Res(s, -1, -1, TRUE)
  ELSE LET last(t) == Tree(s, t)[Len(Tree(s, t))]
           f == [t |-> FixTree, o |-> last(FixTree), px |-> last(FixTree).px]
           p == [t |-> PegTree, o |-> last(PegTree), px |-> RankPx(PegTree, last(PegTree), ora)]
           w == IF s.fix.o = <<>> THEN p ELSE IF s.peg.o = <<>> THEN f
                ELSE IF Ranks(side, f, p) THEN p ELSE f
       IN [DoRemove(s, w.t, w.o.id) EXCEPT !.px = w.px]

Sorted(side, os) == \A k \in 1..(Len(os) - 1) : KeyBetter(side, os[k], os[k + 1])
WellFormed(side, s) == /\ Sorted(side, s.fix.o) /\ Sorted(side, s.peg.o)
                       /\ s.fix.n = Len(s.fix.o) /\ s.peg.n = Len(s.peg.o) /\ UsedNodes(s) <= SideCap
\* quantity that an order limited to lim could match
QtyAt(side, s, lim, now, ora) ==
  LET v == Valid(Entries(side, s, now, ora))
      m == SelectSeq(v, LAMBDA e : WithinLimit(1 - side, e.px, lim))
  IN SumSeq([k \in DOMAIN m |-> m[k].o.q])
\* quote lots that matching qty base lots costs, or -1
RECURSIVE CostR(_, _, _, _)
CostR(v, k, left, acc) ==
  IF k > Len(v) THEN -1
  ELSE IF Ge(v[k].o.q, left) THEN Add(acc, Mul(left, v[k].px))
  ELSE CostR(v, k + 1, Sub(left, v[k].o.q), Add(acc, Mul(v[k].o.q, v[k].px)))
MatchCost(side, s, qty, now, ora) == CostR(Valid(Entries(side, s, now, ora)), 1, qty, 0)
=============================================================================
