-------------------------------- MODULE C09 --------------------------------
(* Perp matching and cancelling: which orders trade, rest and leave. *)
EXTENDS Perp
SideSame(a, e) == Same(a.fix.o, e.fix) /\ Same(a.peg.o, e.peg)
PlaceOps == {"perp_place", "perp_peg"}
NoOpPlace(L) == PastExpiry(L.op, L.pre.now)
C09_Place(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      X == Placing(L)
      opp2 == IF op.side = Bid THEN Asks(post, p) ELSE Bids(post, p)
      own2 == IF op.side = Bid THEN Bids(post, p) ELSE Asks(post, p)
  IN IF NoOpPlace(L) THEN Rule(i, "C09 an order that would be born expired does nothing", L.pre = L.post)
     ELSE
     /\ Rule(i, "C09 orders that cannot be placed are refused", ~X.abort /\ ~X.noSlot /\ ~X.badPrice /\ (X.full => X.evicts))
     /\ Rule(i, "C09 fills and removals: best price first, then oldest, at the maker's price, within the order's limits",
             EventsMatch(EQ(pre, p), EQ(post, p), X, op, pre.now))
     /\ Rule(i, "C09 the opposite side afterwards", SideSame(opp2, X.opp))
     /\ Rule(i, "C09 the order's own side afterwards", SideSame(own2, X.own))
     /\ Rule(i, "C09 one sequence number per order", Eq(Perp(post, p).seq, X.m.seq))
     /\ Len(X.r.evs) > 0 => Rule(i, "C09 never more than the stated base, quote and matches",
          Ge(X.r.base, 0) /\ Ge(X.r.quote, 0) /\ Le(X.takenB, op.base) /\ Le(X.takenQ, op.quote))
     /\ X.posts => Rule(i, "C09 a remainder rests", TRUE)
     /\ op.ot \in {TPostOnly, TSlide} => Rule(i, "C09 post-only orders never take", Eq(X.takenB, 0) /\ \A k \in DOMAIN X.r.evs : X.r.evs[k].y = "out")
     /\ op.ot \in {TIoc, TMarket} => Rule(i, "C09 immediate orders never rest", SideSame(own2, [fix |-> (IF op.side = Bid THEN Bids(pre, p) ELSE Asks(pre, p)).fix.o, peg |-> (IF op.side = Bid THEN Bids(pre, p) ELSE Asks(pre, p)).peg.o]))
\* which order slots an owner's cancel must clear
Target(L) ==
  LET op == L.op  A == Acc(L.pre, op.a)  p == op.p
      byId == {k \in OOOf(A, p, -1) : Eq(A.oo[k].id, op.id)}
      byCid == {k \in OOOf(A, p, -1) : Eq(A.oo[k].cid, op.cid)}
  IN CASE op.op = "perp_cancel" -> FirstK(byId, 1)
       [] op.op = "perp_cancel_cid" -> FirstK(byCid, 1)
       [] op.op = "perp_cancel_all" -> FirstK(OOOf(A, p, -1), G(op, "limit", 10))
       [] op.op = "perp_cancel_side" -> FirstK(OOOf(A, p, G(op, "side", -1)), G(op, "limit", 10))
       [] op.op = "perp_liq_cancel" -> FirstK(OOOf(A, p, -1), G(op, "limit", 10))
       [] OTHER -> {}
CancelOps == {"perp_cancel", "perp_cancel_cid", "perp_cancel_all", "perp_cancel_side", "perp_liq_cancel"}
C09_Cancel(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      A == Acc(pre, op.a)  B == Acc(post, op.a)
      K == Target(L)
      E == IF K = {} THEN A ELSE CancelSlots(pre, A, p, K)
      nothing == op.op = "perp_liq_cancel" /\ pre.BD = post.BD /\ pre.AK = post.AK /\ Same(A.oo, B.oo)
  IN nothing \/
     /\ Rule(i, "C09 a cancel frees exactly the orders asked for", Same(B.oo, E.oo))
     /\ Rule(i, "C09 a cancel removes exactly the orders asked for from the book",
          /\ SideSame(Bids(post, p), [fix |-> WithoutIds(Bids(pre, p).fix.o, A, K, 0), peg |-> WithoutIds(Bids(pre, p).peg.o, A, K, 2)])
          /\ SideSame(Asks(post, p), [fix |-> WithoutIds(Asks(pre, p).fix.o, A, K, 1), peg |-> WithoutIds(Asks(pre, p).peg.o, A, K, 3)]))
     /\ K # {} => Rule(i, "C09 a cancel returns the lots that were on the book", PosSame(PPos(E, p), PPos(B, p), 0))
     /\ op.op \in {"perp_cancel", "perp_cancel_cid"} => Rule(i, "C09 a cancel names an open order", K # {})
\* an owner's cancel of an order that is there works
C09_CancelFail(i, L) ==
  LET op == L.op  pre == L.pre IN
  (op.op \in {"perp_cancel", "perp_cancel_cid"} /\ L.code = 6044) =>
     Rule(i, "C09 cancelling an open order is not refused", Target(L) = {} \/ \A k \in Target(L) : Eq(OnBook(pre, op.p, Acc(pre, op.a).oo[k]), -1))
C09_PlaceFail(i, L) ==
  LET op == L.op IN
  /\ L.code = 6048 => Rule(i, "C09 refused as self trade only when it would be one", Placing(L).abort)
BookOps == PlaceOps \cup CancelOps
C09_Line(i) ==
  LET L == Trace[i] n == L.op.op IN
  /\ (L.ok = 1 /\ n \in PlaceOps) => C09_Place(i, L)
  /\ (L.ok = 1 /\ n \in CancelOps) => C09_Cancel(i, L)
  /\ (L.ok = 0 /\ n \in CancelOps) => C09_CancelFail(i, L)
  /\ (L.ok = 0 /\ n \in PlaceOps) => C09_PlaceFail(i, L)
  /\ (L.ok = 1 /\ n \notin BookOps \cup {"init", "batch", "via_proxy", "perp_close", "book_fill"} /\ (L.pre.BD # L.post.BD \/ L.pre.AK # L.post.AK)) =>
       Rule(i, "C09 only placing and cancelling change the book", FALSE)
=============================================================================
