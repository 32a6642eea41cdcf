-------------------------------- MODULE C22 --------------------------------
(* Time in force and oracle pegs. *)
EXTENDS C09
OrderIn(bk, id) == LET F == {k \in DOMAIN bk.fix.o : Eq(bk.fix.o[k].id, id)}  G2 == {k \in DOMAIN bk.peg.o : Eq(bk.peg.o[k].id, id)} IN
  IF F # {} THEN [in |-> TRUE, tree |-> FixTree, o |-> bk.fix.o[CHOOSE k \in F : TRUE]]
  ELSE IF G2 # {} THEN [in |-> TRUE, tree |-> PegTree, o |-> bk.peg.o[CHOOSE k \in G2 : TRUE]]
  ELSE [in |-> FALSE, tree |-> 0, o |-> 0]
NewEvents(L, p) == LET n == Len(EQ(L.pre, p).ev)  e == EQ(L.post, p).ev IN SubSeq(e, n + 1, Len(e))
\* is some order of this book timed or pegged?
Special(bk) == bk.peg.o # <<>> \/ \E k \in DOMAIN bk.fix.o : IsPos(bk.fix.o[k].tif)
C22_Place(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p  now == pre.now
      opp == IF op.side = Bid THEN Asks(pre, p) ELSE Bids(pre, p)
      opp2 == IF op.side = Bid THEN Asks(post, p) ELSE Bids(post, p)
      own == IF op.side = Bid THEN Bids(pre, p) ELSE Asks(pre, p)
      own2 == IF op.side = Bid THEN Bids(post, p) ELSE Asks(post, p)
      s == 1 - op.side
      ora == PriceLots(Perp(pre, p), POra(pre, p).px)
      evs == NewEvents(L, p)
      fills == {k \in DOMAIN evs : evs[k].y = "fill"}
      maker(k) == OrderIn(opp, evs[k].moid)
      es == Entries(s, opp, now, ora)
      QuoteLeft(k) == Sub(op.quote, SumSeq([j \in DOMAIN evs |-> IF j < k /\ evs[j].y = "fill" THEN Mul(evs[j].px, evs[j].q) ELSE 0]))
  IN
  /\ \A k \in fills : LET x == maker(k) IN
     /\ Rule(i, "C22 only orders on the book trade", x.in)
     /\ x.in => Rule(i, "C22 an expired order does not trade", ~Expired(x.o, now))
     /\ (x.in /\ x.tree = FixTree) => Rule(i, "C22 a fixed order trades at its price", Eq(evs[k].px, x.o.px))
     /\ (x.in /\ x.tree = PegTree) =>
          /\ Rule(i, "C22 a pegged order trades at oracle price plus offset", Eq(evs[k].px, Add(ora, x.o.px)) /\ Ge(evs[k].px, 1))
          /\ Rule(i, "C22 a pegged order beyond its limit does not trade", Eq(x.o.pl, NoLimit) \/ ~Better(s, evs[k].px, x.o.pl))
     /\ x.in => Rule(i, "C22 fixed and pegged orders are ranked together by price, then age",
          \A j \in DOMAIN es : (es[j].ok /\ Ne(es[j].o.id, x.o.id) /\ (Better(s, es[j].px, evs[k].px)
                                   \/ (Eq(es[j].px, evs[k].px) /\ Lt(IF s = Bid THEN Sub(U64Max, es[j].o.k) ELSE es[j].o.k, IF s = Bid THEN Sub(U64Max, x.o.k) ELSE x.o.k))))
             \* unless what remained of the taker's quote could not buy a single lot of it
             => ~OrderIn(opp2, es[j].o.id).in \/ Gt(es[j].px, QuoteLeft(k)))
  /\ (Special(opp) \/ Special(own)) =>
     LET X == Placing(L) IN
     /\ Rule(i, "C22 what an order does to a book with timed or pegged orders: trades and removals", EventsMatch(EQ(pre, p), EQ(post, p), X, op, now))
     /\ Rule(i, "C22 what an order does to a book with timed or pegged orders: the opposite side", SideSame(opp2, X.opp))
     /\ Rule(i, "C22 what an order does to a book with timed or pegged orders: its own side", SideSame(own2, X.own))
  \* orders only leave by trading, with an event, or by their owner's hand
  /\ \A which \in {"opposite", "own"}, tree \in {FixTree, PegTree} :
       LET b == IF which = "own" THEN own ELSE opp  after == IF which = "own" THEN own2 ELSE opp2
           tr == IF tree = FixTree THEN b.fix.o ELSE b.peg.o IN
       \A k \in DOMAIN tr : (~OrderIn(after, tr[k].id).in) =>
          Rule(i, "C22 an order removed on the way leaves an event for its owner", \E e \in DOMAIN evs : Eq(evs[e].moid, tr[k].id))
  /\ \A tree \in {FixTree, PegTree} : LET tr == IF tree = FixTree THEN own2.fix.o ELSE own2.peg.o IN
       \A k \in DOMAIN tr : (~OrderIn(own, tr[k].id).in) =>
         /\ Rule(i, "C22 a new order carries the time in force asked for", Eq(tr[k].tif, Tif(op, now)) /\ Eq(tr[k].ts, now) /\ ~Expired(tr[k], now))
         /\ Rule(i, "C22 a new order is pegged as asked", IF op.op = "perp_peg" THEN tree = PegTree /\ Eq(tr[k].pl, G(op, "peg", -1)) ELSE tree = FixTree)
C22_Line(i) ==
  LET L == Trace[i] n == L.op.op IN
  /\ (L.ok = 1 /\ n \in PlaceOps /\ NoOpPlace(L)) => Rule(i, "C22 an order that would be born expired does nothing", L.pre = L.post)
  /\ (L.ok = 1 /\ n \in PlaceOps /\ ~NoOpPlace(L)) => C22_Place(i, L)
  \* expired and unmatched orders stay their owner's, who can still cancel them
  /\ (L.ok = 1 /\ n \in CancelOps) => C09_Cancel(i, L)
  /\ (L.ok = 0 /\ n \in CancelOps) => C09_CancelFail(i, L)
=============================================================================
