-------------------------------- MODULE Perp --------------------------------
(* Perp markets: funding, positions, order placement, events. *)
EXTENDS Health, Book, StablePrice

Day == 86400
MaxFundingStep == 3600
LotPrice(m, lots) == FxDiv(FxMul(FxInt(lots), FxInt(m.ql)), FxInt(m.bl))     \* native price of a lot price
PriceLots(m, px) == FxFloor(FxDiv(FxMul(px, FxInt(m.bl)), FxInt(m.ql)))

\* -- funding --------------------------------------------------------------------
FundingRate(m, bids, asks, px, now) ==
  LET ora == PriceLots(m, px)
      b == ImpactPrice(Bid, bids, m.imp, now, ora)  a == ImpactPrice(Ask, asks, m.imp, now, ora)
  IN IF Ne(b, -1) /\ Ne(a, -1)
       THEN Clamp(Sub(FxDiv(LotPrice(m, TDiv(Add(b, a), 2)), px), One), m.minf, m.maxf)
     ELSE IF Ne(b, -1) THEN m.maxf ELSE IF Ne(a, -1) THEN m.minf ELSE 0
FundingDelta(m, rate, px, dt) == FxMul(FxMul(FxMul(px, FxInt(m.bl)), rate), FxDiv(FxInt(dt), FxInt(Day)))
\* the market after a funding (and stable price) update
FundingUpdate(m, bids, asks, px, now) ==
  IF Le(now, m.flu) THEN m
  ELSE LET d == FundingDelta(m, FundingRate(m, bids, asks, px, now), px, Min(Sub(now, m.flu), MaxFundingStep))
       IN [m EXCEPT !.lf = Add(m.lf, d), !.sf = Add(m.sf, d), !.flu = now, !.sp = SpUpdate(m.sp, now, px)]

\* -- positions ------------------------------------------------------------------
Sign(x) == IF IsPos(x) THEN 1 ELSE IF IsNeg(x) THEN -1 ELSE 0
SettleFunding(P, m) ==
  LET f == UnsettledFunding(P, m) IN
  [P EXCEPT !.q = Sub(@, f), !.oa = Sub(@, f), !.rp = Sub(@, f),
            !.clf = IF IsPos(P.b) THEN Add(@, f) ELSE @, !.csf = IF IsPos(P.b) THEN @ ELSE Sub(@, f),
            !.lf = m.lf, !.sf = m.sf]
TradingFee(P, fee) == [P EXCEPT !.q = Sub(@, fee), !.oa = Sub(@, fee), !.rp = Sub(@, fee)]
ToI64(x) == Sat64(FxFloor(x))
\* entry price, realized pnl and recurring allowance of a trade; result <<P, realized>>
TradeStats(P, dB, dQ, m) ==
  IF Eq(dB, 0) THEN <<P, 0>>
  ELSE LET old == P.b  new == Add(P.b, dB)
           \* -q/b per lot
           px == Abs(TDiv(dQ, dB))
           zero == Eq(new, 0)
           cross == ~zero /\ Sign(old) # Sign(new)
           incr == ~zero /\ ~cross /\ Sign(old) = Sign(dB)
           red == IF zero \/ cross THEN Abs(old) ELSE IF incr THEN 0 ELSE Abs(dB)
           inc == IF cross THEN Abs(new) ELSE IF incr THEN Abs(dB) ELSE 0
           real == IF zero \/ (~cross /\ ~incr) THEN Add(dQ, Mul(dB, P.ae))
                   ELSE IF cross THEN Mul(old, Sub(px, P.ae)) ELSE 0
           ra == Max(0, Sub(Abs(P.ra), ToI64(FxMul(FxMul(FxInt(Mul(Sub(inc, red), m.bl)), m.sp.p), m.spf))))
       IN <<[P EXCEPT !.ae = IF zero THEN 0 ELSE IF cross THEN px
                             ELSE IF incr THEN TDiv(Add(Mul(Abs(old), P.ae), Abs(dQ)), Abs(new)) ELSE P.ae,
                      !.qr = IF zero THEN 0 ELSE IF cross THEN FxTrunc(NegB(Mul(new, px))) ELSE Add(P.qr, FxTrunc(dQ)),
                      !.rp = IF zero \/ cross THEN 0 ELSE IF incr THEN P.rp ELSE Add(P.rp, real),
                      !.ra = ra], real>>
PnlAt(P, m, price) == Add(P.q, FxMul(FxInt(Mul(P.b, m.bl)), price))
CapRecurring(P, m) ==
  [P EXCEPT !.ra = Max(0, Min(Abs(P.ra), FxCeil(Abs(PnlAt(P, m, m.sp.p)))))]
\* result <<P, m>>
RecordTrade(P, m, dB, dQ) ==
  LET a == TradeStats(P, dB, dQ, m)[1]
      b == [a EXCEPT !.b = Add(@, dB), !.q = Add(@, dQ)]
  IN <<CapRecurring(b, m), [m EXCEPT !.oi = Add(@, Sub(Abs(b.b), Abs(P.b)))]>>
\* settle limits: <<min, max>> of quote native that may still be settled in this window
UpdateWindow(P, m, now) ==
  LET start == Mul(P.sw, m.spz) IN
  IF Ge(now, Add(start, m.spz)) \/ Lt(now, start) THEN [P EXCEPT !.sw = FDiv(now, m.spz), !.ss = 0] ELSE P
SettleLimit(P, m) ==
  LET val == FxMul(m.sp.p, FxInt(Mul(P.b, m.bl)))
      unreal == Sat64(FxTrunc(FxMul(m.spf, Abs(val))))
      upnl == FxCeil(Abs(Add(P.q, val)))
      base == Add(unreal, Min(Abs(P.ra), upnl))
      hi == IF Ge(P.oa, 0) THEN Sat64(Add(base, Sat64(FxCeil(P.oa)))) ELSE base
      lo == IF Ge(P.oa, 0) THEN NegB(base) ELSE Sat64(Add(NegB(base), Sat64(FxFloor(P.oa))))
  IN <<Min(lo, 0), Max(hi, 0)>>
AvailLimit(P, m) == LET s == SettleLimit(P, m) IN <<Min(Sub(s[1], P.ss), 0), Max(Sub(s[2], P.ss), 0)>>
ApplyLimit(P, m, pnl) ==
  IF IsNeg(m.spf) THEN pnl
  ELSE LET a == AvailLimit(P, m) IN IF IsNeg(pnl) THEN Max(pnl, FxInt(a[1])) ELSE Min(pnl, FxInt(a[2]))
RecordSettle(P, pnl, m) ==
  LET once == IF IsPos(pnl) THEN Max(Min(pnl, P.oa), 0) ELSE Min(Max(pnl, P.oa), 0)
      P1 == [P EXCEPT !.q = Sub(@, pnl), !.oa = Sub(@, once)]
      P2 == CapRecurring(P1, m)
      used == Sat64(FxTrunc(Sub(pnl, once)))
      d == Sub(P2.ra, Abs(P1.ra))
      u == IF IsNeg(d) THEN (IF IsPos(used) THEN Max(Add(used, d), 0) ELSE Min(Sub(used, d), 0)) ELSE used
  IN [P2 EXCEPT !.ss = Add(@, u)]

\* Exact where the implementation is exact; entry price based figures up to their rounding
PosSame(x, y, lots) ==
  /\ \A k \in {"m", "sw", "b", "bb", "ab", "tb", "tq", "mv", "tv", "ps"} : Eq(x[k], y[k])
  /\ Eq(x.q, y.q) /\ Eq(x.oa, y.oa) /\ Eq(x.lf, y.lf) /\ Eq(x.sf, y.sf)
  /\ LET tol == Add(Mul(Abs(lots), 16), 64) IN
     /\ Near(x.rp, y.rp, 1, tol) /\ Near(x.ae, y.ae, 1, 64)
     /\ Near(x.clf, y.clf, 1, 64) /\ Near(x.csf, y.csf, 1, 64)
     /\ Near(x.qr, y.qr, 1, 2) /\ Eq(x.ra, y.ra) /\ Eq(x.ss, y.ss)

\* -- fees of the buyback account --------------------------------------------------
ExpireBuyback(A, now, interval) ==
  IF Eq(interval, 0) \/ Lt(now, A.bx) THEN A
  ELSE [A EXCEPT !.bp = IF Lt(now, Add(A.bx, interval)) THEN A.bc ELSE 0, !.bc = 0,
                 !.bx = Mul(Add(FDiv(now, interval), 1), interval)]
AccrueBuyback(A, n) == [A EXCEPT !.bc = Min(Add(@, n), U64Max)]

\* -- placing an order ---------------------------------------------------------------
\* order types as in the instruction
TLimit == 0
TIoc == 1
TPostOnly == 2
TMarket == 3
TSlide == 4
Tif(op, now) == IF Eq(G(op, "exp", 0), 0) THEN 0 ELSE Min(Max(Sub(op.exp, now), 0), 65535)
PastExpiry(op, now) == Ne(G(op, "exp", 0), 0) /\ Le(op.exp, now)
EffLots(P) == Add(P.b, P.tb)
ReduceOnlyLots(P, side, strict) ==
  LET e == EffLots(P) IN
  IF (side = Bid /\ Ge(e, 0)) \/ (side = Ask /\ Le(e, 0)) THEN 0
  ELSE IF ~strict THEN Abs(e)
  ELSE IF side = Bid THEN Abs(Min(Add(e, P.bb), 0)) ELSE Max(Sub(e, P.ab), 0)
NewPerpPos(p) == [m |-> p, sw |-> 0, ss |-> 0, b |-> 0, q |-> 0, qr |-> 0, lf |-> 0, sf |-> 0, bb |-> 0, ab |-> 0, tb |-> 0,
  tq |-> 0, clf |-> 0, csf |-> 0, mv |-> 0, tv |-> 0, ps |-> 0, ae |-> 0, oa |-> 0, ra |-> 0, rp |-> 0]
PosOrNew(A, p) == IF HasPerp(A, p) THEN PPos(A, p) ELSE NewPerpPos(p)
\* what placing the order of line L does: the specification's answer, as a record
Placing(L) ==
  LET op == L.op  s == L.pre  a == op.a  p == op.p  now == s.now
      A == Acc(s, a)
      px == POra(s, p).px
      m == FundingUpdate(Perp(s, p), Bids(s, p), Asks(s, p), px, now)
      ora == PriceLots(m, px)
      side == op.side
      pegged == op.op = "perp_peg"
      tree == IF pegged THEN PegTree ELSE FixTree
      P == PosOrNew(A, p)
      cut == IF G(op, "ro", 0) = 1 \/ m.ro = 1 THEN Min(ReduceOnlyLots(P, side, m.ro = 1), op.base) ELSE op.base
      opp == IF side = Bid THEN Asks(s, p) ELSE Bids(s, p)
      own == IF side = Bid THEN Bids(s, p) ELSE Asks(s, p)
      es == Entries(1 - side, opp, now, ora)
      best == LET v == Valid(es) IN IF v = <<>> THEN -1 ELSE v[1].px
      raw == IF pegged THEN Add(ora, op.off)
             ELSE IF op.ot = TMarket THEN (IF side = Bid THEN I64Max ELSE 1) ELSE op.px
      lim == IF op.ot = TSlide /\ Ne(best, -1)
               THEN (IF side = Bid THEN Min(raw, Sub(best, 1)) ELSE Max(raw, Add(best, 1))) ELSE raw
      pdata == IF pegged THEN Sub(lim, ora) ELSE lim
      seq == Add(m.seq, 1)
      id == OrderId(side, tree, pdata, seq)
      pen == IF op.ot = TIoc /\ ~pegged THEN m.pen ELSE 0
      ord == [side |-> side, base |-> cut, quote |-> op.quote, px |-> lim, postOnly |-> op.ot \in {TPostOnly, TSlide},
              limit |-> G(op, "limit", 10), stb |-> IF G(op, "v1", 0) = 1 THEN DecrementTake ELSE G(op, "stb", 0), a |-> a]
      r == Match(ord, es)
      rests == r.rest /\ op.ot \in (IF pegged THEN {TLimit, TPostOnly, TSlide} ELSE {TLimit, TPostOnly, TSlide})
      restQ == Min(r.base, FDiv(r.quote, lim))
      native == LotPrice(m, lim)
      inLimit == IF side = Bid THEN Le(native, FxMul(m.mlw, px)) ELSE Ge(native, FxMul(m.maw, px))
      posts == rests /\ IsPos(restQ) /\ inLimit
      tree1 == IF tree = FixTree THEN own.fix.o ELSE own.peg.o
      tree2 == IF tree = FixTree THEN own.peg.o ELSE own.fix.o
      ev1 == posts /\ Evictable(tree1, now)
      ev2 == posts /\ ~ev1 /\ Evictable(tree2, now)
      t1 == IF ev1 THEN Without(tree1, tree1[Earliest(tree1)].id) ELSE tree1
      t2 == IF ev2 THEN Without(tree2, tree2[Earliest(tree2)].id) ELSE tree2
      expiredOut == IF ev1 THEN <<tree1[Earliest(tree1)]>> ELSE IF ev2 THEN <<tree2[Earliest(tree2)]>> ELSE <<>>
      full == posts /\ expiredOut = <<>> /\ own.free <= 1 /\ own.bump >= SideCap - 1
      \* a full side gives up its worst order
      f1 == IF tree = FixTree THEN t1 ELSE t2    p1 == IF tree = FixTree THEN t2 ELSE t1
      worstF == IF f1 = <<>> THEN <<>> ELSE <<[Entry(side, f1[Len(f1)], FixTree, f1[Len(f1)].px, now, ora) EXCEPT !.ok = TRUE]>>
      worstP == IF p1 = <<>> THEN <<>> ELSE <<[Entry(side, p1[Len(p1)], PegTree, Max(PegPrice(p1[Len(p1)], ora), 1), now, ora) EXCEPT !.ok = TRUE]>>
      worst == IF worstF = <<>> THEN worstP[1] ELSE IF worstP = <<>> THEN worstF[1]
               ELSE IF Ranks(side, worstF[1], worstP[1]) THEN worstP[1] ELSE worstF[1]
      wid == IF full THEN worst.o.id ELSE -1
      evicts == full /\ Better(side, lim, worst.px)
      slotFree == {k \in DOMAIN A.oo : A.oo[k].m = -1}
      slot == IF slotFree = {} THEN 0 ELSE CHOOSE k \in slotFree : \A j \in slotFree : k <= j
      order == [o |-> a, s |-> slot - 1, px |-> pdata, id |-> id, k |-> IF side = Bid THEN Sub(U64Max, seq) ELSE seq,
                q |-> restQ, ts |-> now, tif |-> Tif(op, now), pl |-> IF pegged THEN G(op, "peg", -1) ELSE NoLimit,
                cid |-> G(op, "cid", 0), ot |-> TLimit]
      drop(os) == IF full THEN Without(os, wid) ELSE os
      newFix == IF posts /\ tree = FixTree THEN Insert(side, drop(t1), order) ELSE IF tree = FixTree THEN t1 ELSE drop(t2)
      newPeg == IF posts /\ tree = PegTree THEN Insert(side, drop(t1), order) ELSE IF tree = PegTree THEN t1 ELSE drop(t2)
      outs == expiredOut \o (IF full THEN <<worst.o>> ELSE <<>>)
      takenB == Sub(cut, r.base)   takenQ == Sub(op.quote, r.quote)
      feeQ == FxInt(Mul(m.ql, Sub(takenQ, r.decq)))
      tfee == FxMul(feeQ, m.tf)   mfee == FxMul(feeQ, m.mf)
      dao == FxFloor(Max(Add(tfee, Min(mfee, 0)), 0))
      traded == IsPos(takenB) \/ IsPos(takenQ)
      A1 == ExpireBuyback(A, now, Grp(s).bbx)
      A2 == AccrueBuyback(A1, FxFloor(pen))
      A3 == IF traded THEN AccrueBuyback(A2, dao) ELSE A2
      P1 == TradingFee(P, pen)
      P2 == IF ~traded THEN P1
            ELSE [TradingFee(P1, tfee) EXCEPT !.tb = IF side = Bid THEN Add(@, takenB) ELSE Sub(@, takenB),
                                              !.tq = IF side = Bid THEN Sub(@, takenQ) ELSE Add(@, takenQ),
                                              !.tv = Add(@, FxFloor(tfee))]
      P3 == IF ~posts THEN P2 ELSE IF side = Bid THEN [P2 EXCEPT !.bb = Add(@, restQ)] ELSE [P2 EXCEPT !.ab = Add(@, restQ)]
  IN [m |-> [m EXCEPT !.seq = seq, !.fa = Add(Add(@, pen), IF traded THEN Add(tfee, mfee) ELSE 0)],
      opp |-> AfterMatch(opp, r.newq), own |-> [fix |-> newFix, peg |-> newPeg],
      r |-> r, es |-> es, lim |-> lim, cut |-> cut, posts |-> posts, order |-> order, slot |-> slot, outs |-> outs,
      abort |-> r.abort, full |-> full, evicts |-> evicts, noSlot |-> posts /\ slot = 0, badPrice |-> Lt(lim, 1),
      P |-> P3, A |-> A3, tfee |-> tfee, mfee |-> mfee, pen |-> pen, takenB |-> takenB, takenQ |-> takenQ, feeQ |-> feeQ,
      st |-> (IF side = Bid THEN 0 ELSE 1) + (IF pegged THEN 2 ELSE 0)]

\* the events a placement must append
OutEv(side, o, now, seq) == [y |-> "out", ty |-> 1, side |-> side, ms |-> o.s, t |-> now, seq |-> seq, mk |-> o.o, q |-> o.q, moid |-> o.id]
FillMatches(ev, f, op, m, now, seq, es) ==
  /\ ev.y = "fill" /\ ev.ts = op.side /\ ev.mo = (IF f.mo THEN 1 ELSE 0) /\ ev.ms = f.e.o.s
  /\ Eq(ev.t, now) /\ Eq(ev.seq, seq) /\ ev.mk = f.e.o.o /\ Eq(ev.mts, f.e.o.ts) /\ ev.tk = op.a
  /\ Eq(ev.tcid, G(op, "cid", 0)) /\ Eq(ev.moid, f.e.o.id) /\ Eq(ev.px, f.e.px) /\ Eq(ev.q, f.q) /\ Eq(ev.mcid, f.e.o.cid)
  /\ Near(ev.mf, IF f.self THEN 0 ELSE m.mf, 200, 4) /\ Near(ev.tf, IF f.self THEN 0 ELSE m.tf, 200, 4)
EventsMatch(pre, post, X, op, now) ==
  LET n == Len(pre.ev)  evs == X.r.evs  k == Len(evs)  q == Len(X.outs) IN
  /\ Len(post.ev) = n + k + q
  /\ \A j \in 1..n : Same(pre.ev[j], post.ev[j])
  /\ \A j \in 1..k : LET e == evs[j] IN
       IF e.y = "out" THEN Same(post.ev[n + j], OutEv(1 - op.side, e.e.o, now, Add(pre.seq, j - 1)))
       ELSE FillMatches(post.ev[n + j], e, op, X.m, now, Add(pre.seq, j - 1), X.es)
  /\ \A j \in 1..q : Same(post.ev[n + k + j], OutEv(op.side, X.outs[j], now, Add(pre.seq, k + j - 1)))
  /\ post.h = pre.h /\ Eq(post.seq, Add(pre.seq, k + q))

\* -- cancelling ------------------------------------------------------------------------
SideOf(st) == st % 2
TreeOf(st) == st \div 2
OnBook(s, p, oo) ==
  LET side == IF SideOf(oo.st) = Bid THEN Bids(s, p) ELSE Asks(s, p)
      os == IF TreeOf(oo.st) = FixTree THEN side.fix.o ELSE side.peg.o
      K == {k \in DOMAIN os : Eq(os[k].id, oo.id)}
  IN IF K = {} THEN -1 ELSE os[CHOOSE k \in K : TRUE].q
FreeSlot == [m |-> -1]
\* account record and removed ids after cancelling the order slots K (of market p)
CancelSlots(s, A, p, K) ==
  LET lots(side) == SumSeq([k \in DOMAIN A.oo |-> IF k \in K /\ SideOf(A.oo[k].st) = side THEN Max(OnBook(s, p, A.oo[k]), 0) ELSE 0])
      j == PSlot(A, p)
  IN [A EXCEPT !.oo = TLCEval([k \in DOMAIN @ |-> IF k \in K THEN FreeSlot ELSE @[k]]),
               !.pp[j] = [@ EXCEPT !.bb = Sub(@, lots(Bid)), !.ab = Sub(@, lots(Ask))]]
WithoutIds(os, A, K, st) == SelectSeq(os, LAMBDA o : ~\E k \in K : A.oo[k].st = st /\ Eq(A.oo[k].id, o.id))
OOOf(A, p, side) == {k \in DOMAIN A.oo : A.oo[k].m = p /\ (side = -1 \/ SideOf(A.oo[k].st) = side)}
FirstK(S, n) == {k \in S : Cardinality({j \in S : j < k}) < n}

\* -- consuming events --------------------------------------------------------------------
(* State of a consumption: market m, accounts acc (index -> record), n events done.
   Accounts not passed (or gone) stop it. *)
MakerFill(A, m, f, now, grp) ==
  LET side == 1 - f.ts
      dB == IF side = Bid THEN f.q ELSE NegB(f.q)
      dQl == IF side = Bid THEN NegB(Mul(f.px, f.q)) ELSE Mul(f.px, f.q)
      dQ == FxInt(Mul(m.ql, dQl))
      fees == FxMul(Abs(dQ), f.mf)
      A1 == IF IsPos(fees) THEN AccrueBuyback(ExpireBuyback(A, now, grp.bbx), FxFloor(fees)) ELSE A
      j == PSlot(A, m.i)
      r == RecordTrade(TradingFee(SettleFunding(A.pp[j], m), fees), m, dB, dQ)
      P == [r[1] EXCEPT !.mv = Add(@, FxFloor(Abs(dQ))),
                        !.bb = IF side = Bid THEN Sub(@, f.q) ELSE @, !.ab = IF side = Ask THEN Sub(@, f.q) ELSE @]
      o == A.oo[f.ms + 1]
      hit == o.m = m.i /\ (IF o.m = -1 THEN FALSE ELSE Eq(o.id, f.moid))
      oo == IF ~hit THEN o ELSE IF f.mo = 1 THEN FreeSlot ELSE [o EXCEPT !.q = Max(Sub(@, f.q), 0)]
  IN <<[A1 EXCEPT !.pp[j] = P, !.oo[f.ms + 1] = oo], r[2], fees>>
TakerFill(A, m, f) ==
  LET dB == IF f.ts = Bid THEN f.q ELSE NegB(f.q)
      dQl == IF f.ts = Bid THEN NegB(Mul(f.px, f.q)) ELSE Mul(f.px, f.q)
      dQ == FxInt(Mul(m.ql, dQl))
      j == PSlot(A, m.i)
      P0 == SettleFunding(A.pp[j], m)
      r == RecordTrade([P0 EXCEPT !.tb = Sub(@, dB), !.tq = Sub(@, dQl)], m, dB, dQ)
  IN <<[A EXCEPT !.pp[j] = [r[1] EXCEPT !.tv = Add(@, FxFloor(Abs(dQ)))]], r[2]>>
OutDone(A, m, e) ==
  LET j == PSlot(A, m.i)  o == A.oo[e.ms + 1]
      hit == o.m = m.i /\ (IF o.m = -1 THEN FALSE ELSE Eq(o.id, e.moid))
  IN [A EXCEPT !.pp[j] = IF e.side = Bid THEN [@ EXCEPT !.bb = Sub(@, e.q)] ELSE [@ EXCEPT !.ab = Sub(@, e.q)],
               !.oo[e.ms + 1] = IF hit THEN FreeSlot ELSE o]
RECURSIVE ConsumeR(_, _, _, _, _, _)
\* st: [m, acc, n, fees]; with: accounts passed; gone: those that are closed
ConsumeR(evs, k, st, with, live, env) ==
  IF k > Len(evs) \/ k > env.limit THEN st
  ELSE LET e == evs[k]
           need == IF e.y = "fill" THEN <<e.mk, e.tk>> ELSE <<e.mk>>
           missing(x) == x \notin with
           closed(x) == x \in with /\ x \notin live
           \* in order: the first account that is missing or closed decides
           firstBad == LET B == {j \in DOMAIN need : missing(need[j]) \/ closed(need[j])} IN
                       IF B = {} THEN 0 ELSE CHOOSE j \in B : \A i \in B : j <= i
       IN IF firstBad # 0
            THEN IF missing(need[firstBad]) THEN st
                 ELSE ConsumeR(evs, k + 1, [st EXCEPT !.n = @ + 1], with, live, env)
          ELSE IF e.y = "out"
            THEN ConsumeR(evs, k + 1, [st EXCEPT !.n = @ + 1, !.acc[e.mk] = OutDone(@, st.m, e)], with, live, env)
          ELSE LET mk == MakerFill(st.acc[e.mk], st.m, e, env.now, env.grp)
                   acc1 == [st.acc EXCEPT ![e.mk] = mk[1]]
                   tk == TakerFill(acc1[e.tk], mk[2], e)
               IN ConsumeR(evs, k + 1, [m |-> tk[2], acc |-> [acc1 EXCEPT ![e.tk] = tk[1]], n |-> st.n + 1,
                                        fees |-> Add(st.fees, mk[3])], with, live, env)
Consuming(L) ==
  LET op == L.op  s == L.pre  q == EQ(s, op.p)
      with == IF "with" \in DOMAIN op THEN {op.with[k] : k \in DOMAIN op.with} ELSE AllAccs(s)
      evs == SubSeq(q.ev, 1, Min(Len(q.ev), 8))
      inv == {evs[k].mk : k \in DOMAIN evs} \cup {evs[k].tk : k \in {j \in DOMAIN evs : evs[j].y = "fill"}}
      acc == TLCEval([a \in inv |-> IF a \in AllAccs(s) THEN Acc(s, a) ELSE [live |-> 0]])
      live == {a \in inv : acc[a].live = 1}
  IN ConsumeR(evs, 1, [m |-> Perp(s, op.p), acc |-> acc, n |-> 0, fees |-> 0], with, live,
              [limit |-> Min(G(op, "limit", 8), 8), now |-> s.now, grp |-> Grp(s)])
=============================================================================
