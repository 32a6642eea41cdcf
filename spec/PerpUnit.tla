------------------------------ MODULE PerpUnit ------------------------------
(* One perp market and one position by themselves: what their functions did on
   random histories, against the specification of positions, settlement limits,
   funding, losses and settlement fees. *)
EXTENDS C13
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l

Post(c) == TLCEval([k \in DOMAIN c.pre |-> IF k \in DOMAIN c.ch THEN c.ch[k] ELSE c.pre[k]])
NoMarketChange(c) == DOMAIN c.ch = {}
\* entry price figures are floating point: relative precision 2^-52
AeTol(P, lots) == Mul(Add(TDiv(Abs(P.ae), "1125899906842624"), 16), Add(Abs(lots), 1))
PosIs(x, y, tol) ==
  /\ \A k \in {"m", "sw", "b", "bb", "ab", "tb", "tq", "mv", "tv", "ps", "q", "oa", "lf", "sf"} : Eq(x[k], y[k])
  /\ Near(x.rp, y.rp, 0, Add(tol, 64)) /\ Near(x.ae, y.ae, 1, 64)
  /\ Near(x.clf, y.clf, 1, 64) /\ Near(x.csf, y.csf, 1, 64)
  /\ Near(x.qr, y.qr, 0, Add(2, TDiv(Abs(x.qr), "1000000000000"))) /\ Within(x.ra, y.ra, 2) /\ Within(x.ss, y.ss, 2)
\* a field only touched by trades
Untouched(x, y, ks) == \A k \in ks : Same(x[k], y[k])
I64Min == "-9223372036854775808"
Limits(P, m) == IF IsNeg(m.spf) THEN <<I64Min, I64Max>> ELSE SettleLimit(P, m)
Avail(P, m) == IF IsNeg(m.spf) THEN <<I64Min, I64Max>> ELSE AvailLimit(P, m)
NearLim(a, b) == Within(a[1], b[1], 2) /\ Within(a[2], b[2], 2)
PosCall(i, c) ==
  LET P == c.p  m == c.pre  f == c.f IN
  CASE f = "trade" ->
         LET R == RecordTrade(P, m, c.dB, c.dQ)  tol == AeTol(P, c.dB) IN
         /\ Rule(i, "C11 position: base and quote move by the trade", Eq(c.p2.b, Add(P.b, c.dB)) /\ Eq(c.p2.q, Add(P.q, c.dQ)))
         /\ Rule(i, "C11 position: open interest follows the positions", Eq(Post(c).oi, R[2].oi) /\ DOMAIN c.ch \subseteq {"oi"})
         /\ Rule(i, "C13 position: entry price, realized profit and allowance of a trade", PosIs(R[1], c.p2, tol))
         /\ Rule(i, "C13 position: the realized profit of a trade", Near(TradeStats(P, c.dB, c.dQ, m)[2], c.res.v, 0, Add(tol, 64)))
    [] f = "fund" -> Rule(i, "C12 position: settling funding", PosIs(SettleFunding(P, m), c.p2, 0) /\ Eq(SettleFunding(P, m).rp, c.p2.rp) /\ NoMarketChange(c))
    [] f = "window" -> Rule(i, "C13 position: the settlement window", Same(UpdateWindow(P, m, c.now), c.p2) /\ NoMarketChange(c))
    [] f = "settle" -> LET R == RecordSettle(P, c.n, m) IN
         Rule(i, "C13 position: recording a settlement", PosIs(R, c.p2, 0) /\ Untouched(R, c.p2, {"rp", "ae", "qr"}) /\ NoMarketChange(c))
    [] f = "fee" -> Rule(i, "C13 position: a trading fee", Same(TradingFee(P, c.n), c.p2) /\ NoMarketChange(c))
    [] f = "liqq" -> Rule(i, "C04 position: quote change in a liquidation", Same([P EXCEPT !.q = Add(@, c.n), !.oa = Add(@, c.n)], c.p2) /\ NoMarketChange(c))
    [] f = "take" -> Rule(i, "C04 position: taking over profit and limits",
         Same([P EXCEPT !.q = Add(@, c.n), !.ra = Add(@, c.rl), !.oa = Add(@, FxInt(c.ol))], c.p2) /\ NoMarketChange(c))
    [] f = "taker" -> LET s == IF c.side = 0 THEN 1 ELSE -1 IN
         Rule(i, "C11 position: lots taken", Same([P EXCEPT !.tb = Add(@, Mul(s, c.b)), !.tq = Sub(@, Mul(s, c.q))], c.p2) /\ NoMarketChange(c))
    [] f = "untaker" -> Rule(i, "C11 position: taken lots processed", Same([P EXCEPT !.tb = Sub(@, c.b), !.tq = Sub(@, c.q)], c.p2) /\ NoMarketChange(c))
    [] f = "maker" -> Rule(i, "C11 position: lots on the book",
         Same(IF c.side = 0 THEN [P EXCEPT !.bb = Add(@, c.b)] ELSE [P EXCEPT !.ab = Add(@, c.b)], c.p2) /\ NoMarketChange(c))
    [] OTHER -> \* "view"
         LET r == c.res  lim == Limits(P, m)  av == Avail(P, m)
             cut == IF IsNeg(m.spf) THEN c.n ELSE IF IsNeg(c.n) THEN Max(c.n, FxInt(av[1])) ELSE Min(c.n, FxInt(av[2]))
             be == IF Eq(P.b, 0) THEN 0 ELSE TDiv(FxInt(NegB(P.qr)), Mul(P.b, m.bl)) IN
         /\ Rule(i, "C12 position: unsettled funding", Eq(r.uf, UnsettledFunding(P, m)))
         /\ Rule(i, "C13 position: the settlement limit", NearLim(r.lim, lim))
         /\ Rule(i, "C13 position: the settlement limit still available", NearLim(r.av, av))
         /\ Rule(i, "C13 position: profit cut to the limit", Within(r.cut, cut, Mul(2, One)) /\
              (IF IsNeg(c.n) THEN Le(c.n, r.cut) /\ Le(r.cut, 0) ELSE Le(r.cut, c.n) /\ Ge(r.cut, 0)))
         /\ Rule(i, "C13 position: unsettled profit", Eq(r.upnl, PnlAt(P, m, c.px)) /\ Eq(r.bn, FxInt(Mul(P.b, m.bl))))
         /\ Rule(i, "C11 position: effective lots and open orders",
              /\ Eq(r.eff, Add(P.b, P.tb))
              /\ (r.oo = 1) = (Ne(P.bb, 0) \/ Ne(P.ab, 0)) /\ (r.tf = 1) = (Ne(P.tb, 0) \/ Ne(P.tq, 0)) /\ (r.of = 1) = (r.oo = 1 \/ r.tf = 1))
         /\ Rule(i, "C13 position: break even and entry prices", Near(r.be, be, 1, 4) /\ Near(r.aep, TDiv(P.ae, m.bl), 1, 4))
         /\ Rule(i, "C13 position: looking changes nothing", Same(P, c.p2) /\ NoMarketChange(c))

MarketCall(i, c) ==
  LET m == c.pre  f == c.f  r == c.res IN
  CASE f = "social" ->
         LET d == IF Eq(m.oi, 0) THEN 0 ELSE FxDiv(c.n, FxInt(m.oi)) IN
         IF IsPos(c.n) THEN Rule(i, "C05 market: only losses are socialized", r.ok = 0)
         ELSE /\ Rule(i, "C05 market: a loss is spread over the open interest",
                   r.ok = 1 /\ Same(Post(c), [m EXCEPT !.lf = Sub(@, d), !.sf = Add(@, d)]) /\ Eq(r.v, d))
    [] f = "id" -> /\ Rule(i, "C10 market: order ids rank by price and then age",
                        Eq(r.v, Add(Shl(c.n, 64), IF c.side = Bid THEN Sub(U64Max, Add(m.seq, 1)) ELSE Add(m.seq, 1))))
                   /\ Rule(i, "C10 market: every id is new", Same(Post(c), [m EXCEPT !.seq = Add(@, 1)]))
    [] f = "native" -> Rule(i, "C09 market: lot price to native", Eq(r.v, LotPrice(m, c.n)) /\ NoMarketChange(c))
    [] f = "lots" -> Rule(i, "C09 market: native price to lots", Eq(r.v, PriceLots(m, c.n)) /\ NoMarketChange(c))
    [] f = "inside" -> Rule(i, "C09 market: the price band",
         (r.v = 1) = (IF c.side = Bid THEN Le(c.n, FxMul(m.mlw, c.px)) ELSE Ge(c.n, FxMul(m.maw, c.px))) /\ NoMarketChange(c))
    [] OTHER ->
         LET fee == SettleFee(m, c.n, c.pnl, c.posv, c.he, c.hm) IN
         /\ Rule(i, "C13 market: the settlement fee", IF IsNeg(fee) THEN r.ok = 0 ELSE r.ok = 1 /\ Within(r.v, fee, 2))
         /\ Rule(i, "C13 market: the settlement fee is at most the settlement", (r.ok = 1) => (Ge(r.v, 0) /\ (Le(r.v, c.n) \/ Eq(r.v, 0))))
         /\ Rule(i, "C13 market: computing a fee changes nothing", NoMarketChange(c))
FundingCall(i, c) ==
  LET m == c.pre  want == FundingUpdate(m, c.bids, c.asks, c.px, c.now)  post == Post(c) IN
  /\ Rule(i, "C12 market: funding accrues", c.ok = 1 /\ Eq(post.lf, want.lf) /\ Eq(post.sf, want.sf) /\ Eq(post.flu, want.flu))
  /\ Rule(i, "C12 market: funding changes nothing else", DOMAIN c.ch \subseteq {"lf", "sf", "flu", "sp"})
  /\ Rule(i, "C12 market: funding moves longs and shorts together", Eq(Sub(post.lf, m.lf), Sub(post.sf, m.sf)))
  /\ Rule(i, "C17 market: the stable price follows", SpSame(want.sp, post.sp))

Calls(i) == LET c == Trace[i] IN
  IF c.k # "funding" /\ c.ok # 1 THEN Rule(i, "C11 position: a call must not fail", FALSE)
  ELSE CASE c.k = "pos" -> PosCall(i, c) [] c.k = "market" -> MarketCall(i, c) [] OTHER -> FundingCall(i, c)
Perp_Inv == Calls(l)
C04_Inv == Perp_Inv
C05_Inv == Perp_Inv
C09_Inv == Perp_Inv
C11_Inv == Perp_Inv
C12_Inv == Perp_Inv
C13_Inv == Perp_Inv
C22_Inv == Perp_Inv
=============================================================================
