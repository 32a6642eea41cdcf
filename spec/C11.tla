-------------------------------- MODULE C11 --------------------------------
(* Perp events and the lots they and the book account for. *)
EXTENDS C09
QueueCap == 488
\* -- invariants of every state ----------------------------------------------------
SideOrders(bk) == bk.fix.o \o bk.peg.o
LotsOf(os, a) == SumSeq([k \in DOMAIN os |-> IF os[k].o = a THEN os[k].q ELSE 0])
PendingMaker(q, a, side) == SumSeq([k \in DOMAIN q.ev |-> LET e == q.ev[k] IN
  IF e.mk # a THEN 0 ELSE IF e.y = "fill" THEN (IF 1 - e.ts = side THEN e.q ELSE 0) ELSE (IF e.side = side THEN e.q ELSE 0)])
PendingTakerB(q, a) == SumSeq([k \in DOMAIN q.ev |-> LET e == q.ev[k] IN
  IF e.y # "fill" THEN 0 ELSE IF e.tk # a THEN 0 ELSE IF e.ts = Bid THEN e.q ELSE NegB(e.q)])
PendingTakerQ(q, a) == SumSeq([k \in DOMAIN q.ev |-> LET e == q.ev[k] IN
  IF e.y # "fill" THEN 0 ELSE IF e.tk # a THEN 0 ELSE IF e.ts = Bid THEN NegB(Mul(e.q, e.px)) ELSE Mul(e.q, e.px)])
PendingOf(q, id) == {k \in DOMAIN q.ev : Eq(q.ev[k].moid, id)}
PendingFill(q, id) == SumSeq([k \in DOMAIN q.ev |-> IF q.ev[k].y = "fill" /\ Eq(q.ev[k].moid, id) THEN q.ev[k].q ELSE 0])
EndsOrder(q, id) == \E k \in PendingOf(q, id) : q.ev[k].y = "out" \/ q.ev[k].mo = 1
LotRules(i, s, p) ==
  LET q == EQ(s, p)  bids == SideOrders(Bids(s, p))  asks == SideOrders(Asks(s, p)) IN
  \A a \in Accs(s) :
    LET A == Acc(s, a)
        slots == OOOf(A, p, -1) IN
    /\ HasPerp(A, p) =>
         LET P == PPos(A, p) IN
         /\ Rule(i, "C11 open bid lots are on the book or in events", Eq(P.bb, Add(LotsOf(bids, a), PendingMaker(q, a, Bid))))
         /\ Rule(i, "C11 open ask lots are on the book or in events", Eq(P.ab, Add(LotsOf(asks, a), PendingMaker(q, a, Ask))))
         /\ Rule(i, "C11 pending taker lots are in events", Eq(P.tb, PendingTakerB(q, a)) /\ Eq(P.tq, PendingTakerQ(q, a)))
    /\ ~HasPerp(A, p) => Rule(i, "C11 nothing pending without a position",
         slots = {} /\ Eq(LotsOf(bids, a), 0) /\ Eq(LotsOf(asks, a), 0) /\ Eq(PendingTakerB(q, a), 0))
    /\ \A k \in slots :
         LET o == A.oo[k]  b == OnBook(s, p, o) IN
         /\ Rule(i, "C11 an order slot stands for an order on the book or an event", Ne(b, -1) \/ EndsOrder(q, o.id))
         /\ Rule(i, "C11 an order slot's quantity is what is on the book and in fills",
                 \* an order removed by an out event leaves its slot's quantity
                 Ne(b, -1) => Eq(o.q, Add(b, PendingFill(q, o.id))))
OrderRules(i, s, p) ==
  \A side \in {Bid, Ask} : LET bk == IF side = Bid THEN Bids(s, p) ELSE Asks(s, p) IN
    \A tree \in {FixTree, PegTree} : LET os == IF tree = FixTree THEN bk.fix.o ELSE bk.peg.o IN
      \A k \in DOMAIN os : (Live(s, os[k].o)) =>
        LET A == Acc(s, os[k].o)  x == os[k].s + 1 IN
        Rule(i, "C11 every order on the book has its owner's slot",
             /\ x \in DOMAIN A.oo /\ A.oo[x].m = p
             /\ Eq(A.oo[x].id, os[k].id) /\ A.oo[x].st = side + 2 * tree /\ Eq(A.oo[x].cid, os[k].cid))
BaseSum(s, p, F(_)) == SumSeq([k \in 1..NAcc(s) |-> IF Live(s, k - 1) /\ HasPerp(Acc(s, k - 1), p) THEN F(PPos(Acc(s, k - 1), p).b) ELSE 0])
MarketRules(i, s, p) ==
  LET q == EQ(s, p) IN
  /\ Rule(i, "C11 base positions net to zero", Eq(BaseSum(s, p, LAMBDA b : b), 0))
  /\ Rule(i, "C11 open interest is the lots on both sides", Eq(Perp(s, p).oi, BaseSum(s, p, LAMBDA b : Abs(b))))
  /\ Rule(i, "C11 events are numbered in order", q.n = Len(q.ev) /\ \A k \in DOMAIN q.ev : Eq(q.ev[k].seq, Add(Sub(q.seq, Len(q.ev)), k - 1)))
\* -- transitions --------------------------------------------------------------------
Dropped(s, t, n) == \A k \in 1..(Len(s) - n) : Same(s[n + k], t[k])
C11_Consume(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      X == Consuming(L)  q == EQ(pre, p)  r == EQ(post, p) IN
  /\ Rule(i, "C11 events are consumed from the front, once, and stop where an account is missing",
          /\ Len(r.ev) = Len(q.ev) - X.n /\ Dropped(q.ev, r.ev, X.n)
          /\ r.h = (q.h + X.n) % QueueCap /\ Eq(r.seq, q.seq))
  /\ X.n > 0 =>
     /\ Rule(i, "C11 consuming changes open interest by what positions change", Eq(Perp(post, p).oi, X.m.oi))
     /\ \A a \in DOMAIN X.acc : X.acc[a].live = 1 =>
          LET E == X.acc[a]  B == Acc(post, a) IN
          /\ Rule(i, "C11 fills and outs update the order slots", Same(E.oo, B.oo))
          /\ HasPerp(E, p) => Rule(i, "C11 fills update positions exactly", PosSame(PPos(E, p), PPos(B, p), Add(PPos(E, p).b, PPos(Acc(pre, a), p).b)))
  /\ Rule(i, "C11 consuming touches only the accounts of its events",
          \A a \in AllAccs(pre) : (pre.A[a + 1] # post.A[a + 1]) => a \in DOMAIN X.acc)
C11_Place(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      X == Placing(L)  B == Acc(post, op.a) IN
  NoOpPlace(L) \/
  /\ Rule(i, "C11 every fill and removal makes exactly one event", EventsMatch(EQ(pre, p), EQ(post, p), X, op, pre.now))
  /\ Rule(i, "C11 placing tracks the taken and resting lots", HasPerp(B, p) /\ PosSame(PPos(B, p), X.P, 0))
  /\ X.posts => Rule(i, "C11 a resting order takes the first free slot",
       LET o == B.oo[X.slot] IN o.m = p /\ o.st = X.st /\ Eq(o.cid, G(op, "cid", 0)) /\ Eq(o.id, X.order.id) /\ Eq(o.q, X.order.q))
  /\ Rule(i, "C11 placing changes no other slot", \A k \in DOMAIN B.oo : (X.posts /\ k = X.slot) \/ Same(B.oo[k], Acc(pre, op.a).oo[k]))
C11_Line(i) ==
  LET L == Trace[i] n == L.op.op IN
  /\ (L.ok = 1 /\ n # "batch") => \A p \in Perps(L.post) :
       (n = "init" \/ L.pre.A # L.post.A \/ L.pre.EQ # L.post.EQ \/ L.pre.BD # L.post.BD \/ L.pre.AK # L.post.AK \/ L.pre.P # L.post.P) =>
         /\ LotRules(i, L.post, p) /\ OrderRules(i, L.post, p) /\ MarketRules(i, L.post, p)
  /\ (L.ok = 1 /\ n = "perp_consume") => C11_Consume(i, L)
  \* a market's events can always be worked off (the gate aside)
  /\ (L.ok = 0 /\ n = "perp_consume" /\ "subst" \notin DOMAIN L.op) => Rule(i, "C11 events can always be consumed", L.code = 6042)
  /\ (L.ok = 1 /\ n \in PlaceOps) => C11_Place(i, L)
  /\ (L.ok = 1 /\ n \notin PlaceOps \cup {"init", "batch", "via_proxy", "perp_consume"} /\ L.pre.EQ # L.post.EQ) =>
       Rule(i, "C11 only placing adds and only consuming removes events", FALSE)
=============================================================================
