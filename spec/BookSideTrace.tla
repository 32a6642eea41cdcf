--------------------------- MODULE BookSideTrace ---------------------------
(* Checks what a real book side did and answered after every operation. *)
EXTENDS BookSide, Json
CONSTANTS TraceFile, Stride
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)
Lf(side, op) ==
  LET id == OrderId(side, op.tree, op.px, op.seq)
  IN [o |-> op.seq, px |-> op.px, id |-> id, k |-> ModPow2(id, 64), q |-> op.q, ts |-> op.ts, tif |-> op.tif, pl |-> op.pl]
Expect(c) == CASE c.op.f = "ins" -> DoInsert(c.side, c.pre, c.op.tree, Lf(c.side, c.op))
               [] c.op.f = "del" -> DoRemove(c.pre, c.op.tree, OrderId(c.side, c.op.tree, c.op.px, c.op.seq))
               [] c.op.f = "exp" -> DoExpire(c.pre, c.op.tree, c.op.now)
               [] c.op.f = "worst" -> DoWorst(c.side, c.pre, c.op.ora)
OrderSame(a, b) == \A f \in {"px", "id", "k", "q", "ts", "tif", "pl"} : Eq(a[f], b[f])
TreeSame(a, b) == a.n = b.n /\ Len(a.o) = Len(b.o) /\ \A k \in DOMAIN a.o : OrderSame(a.o[k], b.o[k])
Ids(os) == [k \in DOMAIN os |-> os[k].id]
EarlyOf(os) == IF os = <<>> THEN <<-1, -1>> ELSE LET o == os[Earliest(os)] IN <<o.id, Expiry(o)>>
\* every order, best first, the pegged ones that have a price
AllOf(c) == LET es == Entries(c.side, c.post, c.q.now, c.q.ora)
            IN [k \in DOMAIN es |-> <<es[k].o.id, es[k].px, IF es[k].ok THEN 1 ELSE 0, es[k].tree>>]
C10_Inv == LET c == Trace[l] IN
  IF c.whole = 0 THEN Rule(l, "C10 no history breaks the order book", FALSE)
  ELSE LET x == TLCEval(Expect(c))  a == c.ans  es == TLCEval(AllOf(c)) IN
  /\ Rule(l, "C10 exactly the orders inserted and not removed, in order", TreeSame(c.post.fix, x.s.fix) /\ TreeSame(c.post.peg, x.s.peg))
  /\ Rule(l, "C10 an insertion fails only without room, and then changes nothing", (c.res.ok = 1) <=> x.ok)
  /\ Rule(l, "C10 the order an operation removes", Eq(c.res.out, x.out) /\ (c.op.f = "worst" => Eq(c.res.px, x.px)))
  /\ (c.op.f = "ins" /\ c.res.ok = 1) => Rule(l, "C10 the handle given for an inserted order", Eq(c.res.at, c.res.id))
  /\ c.op.f \in {"ins", "del"} => Rule(l, "C10 an order's key", Eq(c.res.id, OrderId(c.side, c.op.tree, c.op.px, c.op.seq)))
  /\ Rule(l, "C10 strictly sorted by price, then age", WellFormed(c.side, c.post))
  /\ Rule(l, "C10 iterating a tree", Same(a.iter, <<Ids(c.post.fix.o), Ids(c.post.peg.o)>>))
  /\ Rule(l, "C10 every order is found by its key", Same(a.found, <<Len(c.post.fix.o), Len(c.post.peg.o)>>))
  /\ Rule(l, "C10 earliest expiry", Same(a.early, <<EarlyOf(c.post.fix.o), EarlyOf(c.post.peg.o)>>))
  /\ Rule(l, "C10 all orders in matching order", Same(a.all, es))
  /\ Rule(l, "C10 valid orders in matching order", Same(a.valid, LET v == SelectSeq(es, LAMBDA e : e[3] = 1) IN [k \in DOMAIN v |-> v[k][1]]))
  /\ a.room # -1 => Rule(l, "C10 no storage is lost", a.room = Room(c.post))
  /\ Rule(l, "C10 full when nothing more surely fits", /\ (UsedNodes(c.post) >= SideCap - 1 => a.full = 1)
                                                       /\ (a.full = 1 => UsedNodes(c.post) >= SideCap - 2))
  /\ Rule(l, "C10 best and impact price", /\ Eq(a.best, BestPrice(c.side, c.post, c.q.now, c.q.ora))
                                          /\ Eq(a.imp, ImpactPrice(c.side, c.post, c.q.qty, c.q.now, c.q.ora)))
  /\ Rule(l, "C10 quantity and cost of what can be matched", /\ Eq(a.qat, QtyAt(c.side, c.post, c.q.lim, c.q.now, c.q.ora))
                                                             /\ Eq(a.amt, MatchCost(c.side, c.post, c.q.qty, c.q.now, c.q.ora)))
=============================================================================
