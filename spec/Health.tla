------------------------------- MODULE Health -------------------------------
(* Account health: the weighted, worst-case value of an account.
   ty: "i" initial, "m" maintenance, "e" liquidation end. *)
EXTENDS Oracle

NoAdj == << >>
F64Max == "170141183460469231731687303715884105727"      \* how a recorded f64::MAX looks

LiabPrice(ora, st, ty) == IF ty = "i" THEN Max(ora, st) ELSE ora
AssetPrice(ora, st, ty) == IF ty = "i" THEN Min(ora, st) ELSE ora

\* -- C23: weights -----------------------------------------------------------
ScaledAssetWeight(bk, price) ==
  IF Eq(bk.dws, F64Max) THEN bk.iaw
  ELSE LET all == Add(NatDeposits(bk), FxInt(bk.pst))
           quote == Mul(all, price)                              \* scaled by 2^96
       IN IF Le(quote, FxInt(bk.dws)) THEN bk.iaw
          ELSE FxMul(bk.iaw, FDiv(Shl(bk.dws, 96), quote))
ScaledLiabWeight(bk, price) ==
  IF Eq(bk.bws, F64Max) THEN bk.ilw
  ELSE LET quote == Mul(NatBorrows(bk), price)
       IN IF Le(quote, FxInt(bk.bws)) THEN bk.ilw
          ELSE IF Eq(bk.bws, 0) THEN F64Max
          ELSE FxMul(bk.ilw, FDiv(quote, bk.bws))
MaintWeights(bk, now) ==
  IF Eq(bk.msd, 0) \/ Le(now, bk.mss) THEN <<bk.maw, bk.mlw>>
  ELSE IF Ge(now, bk.mse) THEN <<bk.msa, bk.msl>>
  ELSE LET sc == Mul(Sub(now, bk.mss), bk.msd) IN
       <<Add(bk.maw, FxMul(sc, Sub(bk.msa, bk.maw))), Add(bk.mlw, FxMul(sc, Sub(bk.msl, bk.mlw)))>>

----------------------------------------------------------------------------
\* -- the parts of health ----------------------------------------------------
TokIds(A) == {A.tp[k].i : k \in DOMAIN A.tp} \ {-1}
TokSeq(A) == SelectSeq([k \in DOMAIN A.tp |-> A.tp[k].i], LAMBDA x : x # -1)
PerpSeq(A) == SelectSeq([k \in DOMAIN A.pp |-> A.pp[k].m], LAMBDA x : x # -1)
SpotSeq(A) == SelectSeq([k \in DOMAIN A.s3 |-> A.s3[k].m], LAMBDA x : x # -1)

\* Which tokens count: all of them, or (skip) without nonnegative ones whose oracle is bad
SkipTok(s, A, t) == ~TOk(s, t) /\ ~IsNeg(TIdx(A, t))
CountedToks(s, A, skip) == {t \in TokIds(A) : ~(skip /\ SkipTok(s, A, t))}
CountedSpots(s, A, skip) ==
  LET ts == CountedToks(s, A, skip) IN
  SelectSeq(SpotSeq(A), LAMBDA m : SPos(A, m).bi \in ts /\ SPos(A, m).qi \in ts)
Computable(s, a, skip) ==
  LET A == Acc(s, a) IN
  /\ \A t \in CountedToks(s, A, skip) : TOk(s, t)
  /\ \A k \in DOMAIN PerpSeq(A) :
       LET p == PerpSeq(A)[k] IN POk(s, p) /\ Perp(s, p).st \in CountedToks(s, A, skip)

UnsettledFunding(P, m) ==
  IF Gt(P.b, 0) THEN FxMulI(Sub(m.lf, P.lf), P.b)
  ELSE IF Lt(P.b, 0) THEN FxMulI(Sub(m.sf, P.sf), P.b) ELSE 0
PerpQuote(P, m) == Add(Sub(P.q, UnsettledFunding(P, m)), FxInt(Mul(P.tq, m.ql)))

OrderCase(P, m, ora, st, ty, lots, price) ==
  LET net == FxInt(Mul(Add(Add(P.b, P.tb), lots), m.bl))
      neg == IsNeg(net)
      w == IF ty = "m" THEN (IF neg THEN m.mlw ELSE m.maw) ELSE (IF neg THEN m.ilw ELSE m.iaw)
      bp == IF neg THEN LiabPrice(ora, st, ty) ELSE AssetPrice(ora, st, ty)
  IN Sub(FxMul(FxMul(net, w), bp), FxMul(FxInt(Mul(lots, m.bl)), price))
UnweightedHupnl(P, m, ora, ty) ==
  LET st == m.sp.p IN
  Add(PerpQuote(P, m),
      Min(OrderCase(P, m, ora, st, ty, P.bb, LiabPrice(ora, st, ty)),
          OrderCase(P, m, ora, st, ty, NegB(P.ab), AssetPrice(ora, st, ty))))
OverallWeight(m, ty) == IF ty = "m" THEN m.mow ELSE m.iow
Hupnl(P, m, ora, ty) ==
  LET u == UnweightedHupnl(P, m, ora, ty) IN IF IsPos(u) THEN FxMul(OverallWeight(m, ty), u) ELSE u

FreeBase(o) == o.bf
ReservedBase(o) == Sub(o.bt, o.bf)
ReservedQuote(o) == Sub(o.qt, o.qf)
Round16(x) == Shr(Add(x, 32768), 16)                    \* 2^-64 to 2^-48 units
Round32(x) == Shr(Add(x, "2147483648"), 32)
\* spot reserved amounts in worst-case conversion, at base and quote prices rec
AsBase(S, o, bt, qt) ==
  LET ora == FDiv(Shl(FxMul(FxInt(ReservedQuote(o)), qt.ap), 48), bt.lp)
      bid == FxMul(FxInt(ReservedQuote(o)), Round32(S.hb))
  IN Add(FxInt(ReservedBase(o)), IF Eq(bid, 0) THEN ora ELSE Min(ora, bid))
AsQuote(S, o, bt, qt) ==
  LET ora == FDiv(Shl(FxMul(FxInt(ReservedBase(o)), bt.ap), 48), qt.lp)
      ask == FxMul(FxInt(ReservedBase(o)), Round16(S.la))
  IN Add(FxInt(ReservedQuote(o)), IF Eq(ask, 0) THEN ora ELSE Min(ora, ask))

\* A bank's view for one account: balance, weights and prices.  adj[t]: weights as after a balance
\* adjustment booked at bank number adj[t] of token t
TokInfo(s, a, t, ty, spots, adj) ==
  LET A == Acc(s, a)  bk == Bank0(s, t)
      wb == IF t \in DOMAIN adj THEN Bank(s, t, adj[t]) ELSE bk
      ora == TPrice(s, t)  st == BStable(bk)
      free == SumSeq([k \in DOMAIN spots |->
                 LET S == SPos(A, spots[k])  o == OO(s, a, spots[k])
                 IN Add(IF S.bi = t THEN o.bf ELSE 0, IF S.qi = t THEN o.qf ELSE 0)])
      mw == MaintWeights(bk, s.now)
  IN [bal |-> Add(Native(TIdx(A, t), bk), FxInt(free)),
      ora |-> ora,
      ap |-> AssetPrice(ora, st, ty), lp |-> LiabPrice(ora, st, ty),
      aw |-> IF ty = "i" THEN ScaledAssetWeight(wb, IF t \in DOMAIN adj THEN Min(ora, st) ELSE Max(ora, st)) ELSE IF ty = "m" THEN mw[1] ELSE bk.iaw,
      lw |-> IF ty = "i" THEN ScaledLiabWeight(wb, Max(ora, st)) ELSE IF ty = "m" THEN mw[2] ELSE bk.ilw]

\* Everything health needs of account a: HInfo.toks[t], .perps (hupnl per position), .spots
HInfo(s, a, ty, skip, adj) ==
  LET A == Acc(s, a)
      ts == CountedToks(s, A, skip)
      spots == CountedSpots(s, A, skip)
      toks == TLCEval([t \in ts |-> TokInfo(s, a, t, ty, spots, adj)])
      ps == PerpSeq(A)
      perps == TLCEval([k \in DOMAIN ps |-> [p |-> ps[k], st |-> Perp(s, ps[k]).st, h |-> Hupnl(PPos(A, ps[k]), Perp(s, ps[k]), PPrice(s, ps[k]), ty)]])
      res == TLCEval([k \in DOMAIN spots |->
                LET S == SPos(A, spots[k]) o == OO(s, a, spots[k]) IN
                [m |-> spots[k], bi |-> S.bi, qi |-> S.qi,
                 b |-> AsBase(S, o, toks[S.bi], toks[S.qi]), q |-> AsQuote(S, o, toks[S.bi], toks[S.qi])]])
  IN [ts |-> ts, toks |-> toks, perps |-> perps, spots |-> res]

EffBal(I, t, ignoreNeg) ==
  Add(I.toks[t].bal,
      SumSeq([k \in DOMAIN I.perps |-> IF I.perps[k].st = t /\ (~ignoreNeg \/ IsPos(I.perps[k].h)) THEN I.perps[k].h ELSE 0]))
TokContrib(ti, bal) ==
  FxMul(bal, IF IsNeg(bal) THEN FxMul(ti.lw, ti.lp) ELSE FxMul(ti.aw, ti.ap))
MaxReserved(I, t) == SumSeq([k \in DOMAIN I.spots |->
  Add(IF I.spots[k].bi = t THEN I.spots[k].b ELSE 0, IF I.spots[k].qi = t THEN I.spots[k].q ELSE 0)])
ReservedEffect(I, t, eff, amount) ==
  LET ti == I.toks[t]
      max == Add(eff, MaxReserved(I, t))
      asset == IF Ge(max, amount) THEN amount ELSE IF IsNeg(max) THEN 0 ELSE max
      liab == Sub(amount, asset)
  IN Add(FxMul(FxMul(asset, ti.aw), ti.ap), FxMul(FxMul(liab, ti.lw), ti.lp))
SpotContrib(I, eff, k) ==
  LET r == I.spots[k] IN
  IF Eq(r.b, 0) \/ Eq(r.q, 0) THEN 0
  ELSE Min(ReservedEffect(I, r.bi, eff[r.bi], r.b), ReservedEffect(I, r.qi, eff[r.qi], r.q))
\* <<health, gross>>: gross bounds the magnitude of the terms, for tolerances
HealthOf(I, ignoreNeg) ==
  LET eff == TLCEval([t \in I.ts |-> EffBal(I, t, ignoreNeg)])
      toks == [k \in 1..Cardinality(I.ts) |-> CHOOSE t \in I.ts : Cardinality({x \in I.ts : x < t}) = k - 1]
      cs == TLCEval([k \in DOMAIN toks |-> TokContrib(I.toks[toks[k]], eff[toks[k]])]
            \o [k \in DOMAIN I.spots |-> SpotContrib(I, eff, k)])
  IN <<SumSeq(cs), Add(SumSeq([k \in DOMAIN cs |-> Abs(cs[k])]),
                       Add(SumSeq([k \in DOMAIN I.perps |-> Abs(I.perps[k].h)]),
                           \* weights have a resolution of their own
                           SumSeq([k \in DOMAIN toks |-> Shr(Abs(FxMul(eff[toks[k]], I.toks[toks[k]].lp)), 6)])))>>
HInfoStd(s, a, ty) == HInfo(s, a, ty, FALSE, NoAdj)
HealthX(s, a, ty, skip, adj) == HealthOf(HInfo(s, a, ty, skip, adj), FALSE)
HealthG(s, a, ty) == HealthX(s, a, ty, FALSE, NoAdj)
Health(s, a, ty) == HealthG(s, a, ty)[1]
\* rounding allowance for a health with the given gross: one part in 10^12, and 1/1000 native
HTol(g) == Add(TDiv(g, "1000000000000"), "281474976710")
HNear(a, b, g) == Within(a, b, HTol(g))

----------------------------------------------------------------------------
\* -- C03: what an owner's action may do to init health -------------------------
\* (comparisons with allowance for the recomputation)
PostOk(pre, post, tol) ==
  \/ Ge(Add(post, tol), 0)
  \/ IF Lt(post, FxInt(-1000)) THEN Ge(FxCeil(Add(post, tol)), FxCeil(Sub(pre, tol)))
     ELSE Ge(Add(post, tol), Sub(pre, tol))
Recovers(h) == Gt(h, NegB(One))
\* the account counts as being liquidated (before an action that first lets it recover)
StillLiquidated(s, a, skip) ==
  /\ Acc(s, a).bl = 1
  /\ ~Recovers(HealthX(s, a, "i", skip, NoAdj)[1])
  /\ ~Recovers(HealthX(s, a, "e", skip, NoAdj)[1])

\* -- liquidation phases (on liquidation-end values) ------------------------------
HasSpotFunds(s, a) == LET A == Acc(s, a) IN \E k \in DOMAIN SpotSeq(A) :
  LET o == OO(s, a, SpotSeq(A)[k]) IN ~(Eq(o.bt, 0) /\ Eq(o.qt, 0) /\ Eq(o.rb, 0))
HasPerpOrders(s, a) == LET A == Acc(s, a) IN \E k \in DOMAIN A.pp :
  A.pp[k].m # -1 /\ (Ne(A.pp[k].bb, 0) \/ Ne(A.pp[k].ab, 0))
HasPerpBase(s, a) == LET A == Acc(s, a) IN \E k \in DOMAIN A.pp :
  A.pp[k].m # -1 /\ Ne(Add(A.pp[k].b, A.pp[k].tb), 0)
HasPerpFills(s, a) == LET A == Acc(s, a) IN \E k \in DOMAIN A.pp :
  A.pp[k].m # -1 /\ (Ne(A.pp[k].tb, 0) \/ Ne(A.pp[k].tq, 0))
PnlNoBase(s, a, pos) == LET A == Acc(s, a) IN \E k \in DOMAIN A.pp :
  /\ A.pp[k].m # -1 /\ Eq(Add(A.pp[k].b, A.pp[k].tb), 0)
  /\ LET q == PerpQuote(A.pp[k], Perp(s, A.pp[k].m)) IN IF pos THEN IsPos(q) ELSE IsNeg(q)
LiqBorrows(s, I) == \E t \in I.ts : IsNeg(I.toks[t].bal) /\ IsNeg(EffBal(I, t, FALSE))
LiqAssets(s, I) == \E t \in I.ts :
  Ge(I.toks[t].bal, One) /\ Ge(EffBal(I, t, FALSE), One) /\ Bank0(s, t).dal = 0
Phase1(s, a) == HasSpotFunds(s, a) \/ HasPerpOrders(s, a)
Phase2(s, a) == LET I == HInfoStd(s, a, "e") IN
  (LiqBorrows(s, I) /\ LiqAssets(s, I)) \/ HasPerpBase(s, a) \/ HasPerpFills(s, a) \/ PnlNoBase(s, a, TRUE)

\* how much of settle token t may leave the account before perp-settle health is used up
SpotTaken(h, bal, awp, lwp) ==
  IF ~IsPos(h) THEN 0
  ELSE IF ~IsPos(bal) THEN FxDiv(h, lwp)
  ELSE IF IsPos(awp) /\ Le(FxDiv(h, awp), bal) THEN FxDiv(h, awp)
  ELSE LET rest == Sub(h, FxMul(bal, awp)) IN
       IF IsPos(rest) THEN Add(bal, FxDiv(rest, lwp)) ELSE bal
PerpMaxSettle(s, a, t) ==
  LET I == HInfoStd(s, a, "m")
      h == HealthOf(I, TRUE)[1]
      ti == I.toks[t]
  IN SpotTaken(h, EffBal(I, t, TRUE), FxMul(ti.aw, ti.ap), FxMul(ti.lw, ti.lp))
=============================================================================
