-------------------------------- MODULE C29 --------------------------------
(* What the program's client-side helpers say about an account: its sheet and
   ratios, whether and how it is liquidatable, and the sizes of a borrow, swap
   or perp trade that keep a demanded health ratio.  An "assess" line carries
   the answers; the state does not change. *)
EXTENDS C21
\* the helpers look at the wall clock: beyond every recorded net borrow window
WallClock == "1900000000"
Tenth == "28147497671066"                      \* the precision of the searches, 0.1
PosPart(x) == Max(x, 0)
----------------------------------------------------------------------------
\* -- ratios --------------------------------------------------------------------
\* <<assets, liabilities, tolerance>> of a computed account
Val(I) == LET sh == Sheet(I) IN <<sh[1], sh[2], HTol(HealthOf(I, FALSE)[2])>>
Near0(v) == Le(v[2], Mul(2, v[3]))
\* the ratio certainly or possibly reaches r, is certainly or possibly at most r
MayReach(v, r) == Near0(v) \/ Ge(Mul(100, Add(Sub(v[1], v[2]), v[3])), FxMul(r, Sub(v[2], v[3])))
MayStay(v, r) == Le(Mul(100, Sub(Sub(v[1], v[2]), v[3])), FxMul(r, Add(v[2], v[3])))
RatioOf(v) == IF IsPos(v[2]) THEN Min(F64Max, FDiv(Mul(Mul(100, One), Sub(v[1], v[2])), v[2])) ELSE F64Max
----------------------------------------------------------------------------
\* -- the account after a hypothetical trade --------------------------------------
After(s, I, t, bk, delta) ==
  [I EXCEPT !.toks[t] = [@ EXCEPT !.bal = Add(@, delta),
     !.aw = ScaledAssetWeight(bk, Min(I.toks[t].ora, BStable(bk))),
     !.lw = ScaledLiabWeight(bk, Max(I.toks[t].ora, BStable(bk)))]]
Taken(s, A, t, x) == BankWithdraw(Bank0(s, t), TIdx(A, t), x, TRUE, ~InUseTok(A, t), WallClock).bk
Given(s, A, t, x) == BankDeposit(Bank0(s, t), TIdx(A, t), x, ~InUseTok(A, t), WallClock).bk
Borrowed(s, A, I, t, x) == Val(After(s, I, t, Taken(s, A, t, x), NegB(x)))
Swapped(s, A, I, st, tt, px, x) ==
  LET got == FxMul(x, px) IN
  Val(After(s, After(s, I, st, Taken(s, A, st, x), NegB(x)), tt, Given(s, A, tt, got), got))
\* n base lots (signed) traded at price pp
Traded(s, A, I, p, pp, n) ==
  LET ps == PerpSeq(A)
      k == CHOOSE j \in DOMAIN ps : ps[j] = p
      m == Perp(s, p)
      P == PPos(A, p)
      Q == [P EXCEPT !.tb = Add(P.tb, n), !.q = Sub(P.q, FxMul(FxInt(Mul(n, m.bl)), pp))]
  IN Val([I EXCEPT !.perps[k].h = Hupnl(Q, m, PPrice(s, p), "i")])
----------------------------------------------------------------------------
Got(x) == x.r = "ok"
\* a borrow of up to v keeps ratio r; a native more does not
BorrowRules(i, s, a, t, r, x) ==
  LET A == Acc(s, a)  I == HInfoStd(s, a, "i")  now == Val(I)
      nb(y) == NetBorrowsOk(Taken(s, A, t, y), TPrice(s, t)) IN
  IF ~HasTok(A, t) THEN Rule(i, "C29 only a held token's borrow is sized", x.r = "missing" \/ (Got(x) /\ Eq(x.v, 0) /\ MayStay(now, r)))
  ELSE
  /\ Rule(i, "C29 a borrow is sized", Got(x))
  /\ Got(x) =>
     /\ Rule(i, "C29 sizes are not negative", ~IsNeg(x.v))
     /\ Rule(i, "C29 the sized borrow keeps the ratio and the net borrow limit",
          Eq(x.v, 0) \/ (MayReach(Borrowed(s, A, I, t, x.v), r) /\ nb(x.v)))
     /\ Rule(i, "C29 the sized borrow is the largest",
          \/ MayStay(Borrowed(s, A, I, t, Add(x.v, One)), r)
          \/ ~nb(Add(x.v, One))
          \/ MayStay(Borrowed(s, A, I, t, x.v), Add(r, Tenth))
          \/ (Eq(x.v, 0) /\ MayStay(now, r)))
\* the slope of health in large swaps: <<per source native, scale>>
SwapSlope(s, I, st, tt, px) ==
  LET cost == FxMul(I.toks[st].lw, I.toks[st].lp)  gain == FxMul(FxMul(Bank0(s, tt).iaw, I.toks[tt].ap), px) IN
  <<Sub(gain, cost), Add(gain, cost)>>
\* (nearly) flat: neither sign nor a crossing is certain
Flat(sl) == Le(Mul(Abs(sl[1]), 1000000), sl[2]) \/ Le(Abs(sl[1]), 281474977)
SwapRules(i, s, a, st, tt, px, r, x) ==
  LET A == Acc(s, a) I == HInfoStd(s, a, "i") IN
  IF ~HasTok(A, st) \/ ~HasTok(A, tt) THEN Rule(i, "C29 only a swap between held tokens is sized", x.r = "missing")
  ELSE LET sl == SwapSlope(s, I, st, tt, px) IN
  IF Flat(sl) THEN TRUE
  ELSE
  /\ Rule(i, "C29 a swap is sized", Got(x))
  /\ Got(x) =>
     IF ~IsNeg(sl[1]) THEN Rule(i, "C29 a swap that improves health has no limit", Eq(x.v, F64Max))
     ELSE
     /\ Rule(i, "C29 sizes are not negative", ~IsNeg(x.v))
     /\ LET R(y) == Swapped(s, A, I, st, tt, px, y)  here == R(x.v)  first == R(0) IN
        /\ (~IsNeg(Sub(first[1], first[2])) /\ MayReach(first, r)) =>
             Rule(i, "C29 the sized swap keeps the ratio", MayReach(here, r))
        /\ IF MayReach(here, r)
           THEN Rule(i, "C29 the sized swap is the largest",
                  \/ MayStay(R(Add(x.v, Add(Tenth, 16))), r)
                  \/ MayStay(here, Add(r, Tenth)))
           ELSE LET top == Add(Max(RatioOf(here), Max(RatioOf(R(Add(x.v, Tenth))), RatioOf(R(PosPart(Sub(x.v, Tenth)))))), Tenth) IN
                /\ Rule(i, "C29 out of reach, a swap is no worse than none", MayStay(first, top))
                /\ ~IsNeg(RatioOf(here)) =>
                   LET ys == <<FDiv(x.v, 2), Mul(x.v, 2), Abs(I.toks[st].bal), FxDiv(Abs(I.toks[tt].bal), px)>> IN
                   \A k \in DOMAIN ys : Rule(i, "C29 out of reach, a swap goes to the best ratio", MayStay(R(ys[k]), top))
Sat(x) == Min(x, F64Max)
SwapLimits(i, s, a, st, tt, px, u, x) ==
  LET A == Acc(s, a)  bs == Bank0(s, st)  bt == Bank0(s, tt)  sp == TPrice(s, st)
      pos(t) == TNat(s, a, t)
      nbq == IF IsNeg(bs.nb) \/ IsNeg(bs.nbl) THEN F64Max ELSE Sub(FxInt(bs.nbl), Mul(Max(sp, BStable(bs)), bs.nb))
      nb == Sat(FxDiv(nbq, sp))
      dep == IF Eq(bt.dl, 0) THEN F64Max ELSE Sub(FxInt(bt.dl), Add(FxMul(bt.di, Add(bt.id, 1)), FxInt(bt.pst)))
      src == Min(u, Sat(Add(nb, PosPart(pos(st)))))
      tgt == Min(Sat(FxMul(src, px)), Sat(Add(dep, NegB(Min(pos(tt), 0)))))
      e == PosPart(Min(src, Sat(FxDiv(tgt, px))))
  IN Rule(i, "C29 a swap within the limits", Near(x, e, 1000, FxInt(1)) \/ Near(FxMul(x, px), FxMul(e, px), 1000, FxInt(1)))
PerpRules(i, s, a, p, side, pp, r, x) ==
  LET A == Acc(s, a)  I == HInfoStd(s, a, "i")  now == Val(I)
      h == Sub(now[1], now[2]) IN
  IF p \notin {PerpSeq(A)[k] : k \in DOMAIN PerpSeq(A)} THEN TRUE
  ELSE
  LET m == Perp(s, p)  P == PPos(A, p)  ora == PPrice(s, p)  sv == m.sp.p
      dir == IF side = 0 THEN 1 ELSE -1
      lots == Add(P.b, P.tb)
      sl == IF dir = 1 THEN Sub(FxMul(m.iaw, AssetPrice(ora, sv, "i")), pp) ELSE Sub(pp, FxMul(m.ilw, LiabPrice(ora, sv, "i")))
      c1 == IF (IsPos(lots) /\ dir = -1) \/ (IsNeg(lots) /\ dir = 1) THEN Abs(lots) ELSE 0
      R(n) == Traded(s, A, I, p, pp, Mul(dir, n))
  IN
  IF Flat(<<sl, Add(pp, pp)>>) \/ (Le(Abs(h), now[3]) /\ ~IsNeg(h)) THEN TRUE
  ELSE
  /\ Rule(i, "C29 a perp trade is sized", Got(x))
  /\ Got(x) =>
     IF IsNeg(h) THEN (Gt(NegB(h), now[3]) => Rule(i, "C29 no perp trade in bad health", Eq(x.v, 0)))
     ELSE IF ~IsNeg(sl) THEN Rule(i, "C29 a perp trade that improves health has no limit", Eq(x.v, I64Max))
     ELSE
     /\ Rule(i, "C29 sizes are not negative", ~IsNeg(x.v))
     /\ LET here == R(x.v)  best == R(c1) IN
        /\ (MayReach(now, r) /\ ~MayStay(now, r)) => Rule(i, "C29 the sized perp trade keeps the ratio", MayReach(here, r))
        /\ IF MayReach(here, r)
           THEN Rule(i, "C29 the sized perp trade is the largest",
                  \/ MayStay(R(Add(x.v, 1)), r)
                  \/ MayStay(here, Add(r, Tenth))
                  \/ (Eq(x.v, 0) /\ MayStay(best, 0)))
           ELSE /\ Rule(i, "C29 the ratio is given up only when out of reach", MayStay(best, r))
                /\ Rule(i, "C29 out of reach, a perp trade closes the position or nothing",
                     \/ Eq(x.v, 0) /\ MayStay(best, Add(RatioOf(now), 1))
                     \/ Eq(x.v, c1) /\ MayStay(now, Add(RatioOf(best), 1)))
----------------------------------------------------------------------------
\* -- the account's sheet ----------------------------------------------------------
\* assets held stable instead of liabilities
Sheet2(I) ==
  LET toks == [k \in 1..Cardinality(I.ts) |-> CHOOSE t \in I.ts : Cardinality({x \in I.ts : x < t}) = k - 1]
      plus(t) == Add(LPos(I.toks[t].bal), SumSeq([k \in DOMAIN I.perps |-> IF I.perps[k].st = t THEN LPos(I.perps[k].h) ELSE 0]))
      minus(t) == Add(LNeg(I.toks[t].bal), SumSeq([k \in DOMAIN I.perps |-> IF I.perps[k].st = t THEN LNeg(I.perps[k].h) ELSE 0]))
      lp(t) == FxMul(I.toks[t].lw, I.toks[t].lp)
      ap(t) == FxMul(I.toks[t].aw, I.toks[t].ap)
      liab(t) == IF Ge(plus(t), minus(t)) THEN FxMul(minus(t), ap(t)) ELSE Add(FxMul(plus(t), ap(t)), FxMul(Sub(minus(t), plus(t)), lp(t)))
      eff == TLCEval([t \in I.ts |-> EffBal(I, t, FALSE)])
      spot == TLCEval([k \in DOMAIN I.spots |-> SpotContrib(I, eff, k)])
  IN <<Add(SumSeq([k \in DOMAIN toks |-> FxMul(plus(toks[k]), ap(toks[k]))]), SumSeq([k \in DOMAIN spot |-> LPos(spot[k])])),
       Add(SumSeq([k \in DOMAIN toks |-> liab(toks[k])]), SumSeq([k \in DOMAIN spot |-> LNeg(spot[k])]))>>
\* marked to market: every balance, reserved spot amount, perp quote and base at the oracle price
Market(s, a) ==
  LET A == Acc(s, a)  I == HInfoStd(s, a, "m")
      ts == [k \in 1..Cardinality(I.ts) |-> CHOOSE t \in I.ts : Cardinality({x \in I.ts : x < t}) = k - 1]
      ps == PerpSeq(A)  ss == SpotSeq(A)
      px(t) == I.toks[t].ora
      parts == [k \in DOMAIN ts |-> FxMul(I.toks[ts[k]].bal, px(ts[k]))]
        \o [k \in DOMAIN ss |-> FxMul(FxInt(ReservedBase(OO(s, a, ss[k]))), px(SPos(A, ss[k]).bi))]
        \o [k \in DOMAIN ss |-> FxMul(FxInt(ReservedQuote(OO(s, a, ss[k]))), px(SPos(A, ss[k]).qi))]
        \o [k \in DOMAIN ps |-> FxMul(PerpQuote(PPos(A, ps[k]), Perp(s, ps[k])), px(Perp(s, ps[k]).st))]
        \o [k \in DOMAIN ps |-> LET P == PPos(A, ps[k]) m == Perp(s, ps[k]) IN
              FxMul(FxMul(FxInt(Mul(Add(P.b, P.tb), m.bl)), PPrice(s, ps[k])), px(m.st))]
      pt == TLCEval(parts)
  IN <<SumSeq([k \in DOMAIN pt |-> LPos(pt[k])]), SumSeq([k \in DOMAIN pt |-> LNeg(pt[k])])>>
Gross2(v) == Add(FxInt(1), FDiv(Add(v[1], v[2]), "1000000000"))
SheetRules(i, s, a, x) ==
  /\ \A ty \in {"i", "m", "e"} :
       LET I == HInfoStd(s, a, ty)  v == Val(I)  one == Sheet2(I)
           tol == Add(v[3], v[3])  y == x.sheet[ty] IN
       /\ Rule(i, "C29 assets and liabilities, liabilities held: " \o ty, Within(y[3], v[1], tol) /\ Within(y[4], v[2], tol))
       /\ Rule(i, "C29 assets and liabilities, assets held: " \o ty, Within(y[1], one[1], tol) /\ Within(y[2], one[2], tol))
       /\ Rule(i, "C29 the health ratio: " \o ty,
            IF Near0(v) THEN Eq(x.rat[ty], F64Max) \/ IsPos(v[2])
            ELSE MayReach(v, Sub(x.rat[ty], 2)) /\ MayStay(v, Add(x.rat[ty], 2)))
  /\ LET A == Acc(s, a)  h == HealthG(s, a, IF A.bl = 1 THEN "e" ELSE "m") IN
     Rule(i, "C29 an account is liquidatable below zero health: at maintenance, or until the end once begun",
       Le(Abs(h[1]), HTol(h[2])) \/ (x.liq = 1) = IsNeg(h[1]))
  /\ LET I == HInfoStd(s, a, "e")
         p1 == Phase1(s, a)  p2 == Phase2(s, a)  p3 == LiqBorrows(s, I) \/ PnlNoBase(s, a, FALSE)
         b(y) == IF y THEN 1 ELSE 0
         \* a balance that rounding may move over its threshold
         fuzzy == \E t \in I.ts : Le(Abs(EffBal(I, t, FALSE)), 1024) \/ Within(EffBal(I, t, FALSE), One, 1024)
     IN fuzzy \/ Rule(i, "C29 liquidation goes by phases: orders, then positions, then bankruptcy",
          x.ph = <<b(p1), b(~p1 /\ p2), b(~p1 /\ ~p2 /\ p3)>>)
  /\ LET v == Market(s, a)  eq == Sub(v[1], v[2]) IN
     /\ Rule(i, "C29 assets and liabilities at market prices", Within(x.ma, v[1], Gross2(v)) /\ Within(x.ml, v[2], Gross2(v)))
     /\ Gt(eq, Mul(1000000, Gross2(v))) =>
          Rule(i, "C29 leverage is liabilities over equity", Got(x.lev) /\ Near(x.lev.v, FxDiv(v[2], eq), 10000, 1024))
  /\ \A t \in Toks(s) :
       LET A == Acc(s, a)  y == x.pot[t + 1]  z == x.set[t + 1] IN
       IF ~HasTok(A, t) THEN Rule(i, "C29 only held tokens have values", y.r = "missing" /\ z.r = "missing")
       ELSE LET I == HInfoStd(s, a, "i") IN
         /\ Rule(i, "C29 what spot orders may turn into a token",
              Got(y) /\ LET e == MaxReserved(I, t) IN Near(y.v, e, 1000, FxInt(1)))
         /\ Rule(i, "C29 what may settle in a token", Got(z) /\ LET e == PerpMaxSettle(s, a, t) IN Near(z.v, e, 100000, FxInt(2)))
C29_Line(i) ==
  LET L == Trace[i]  op == L.op  s == L.pre  a == op.a IN
  (op.op = "assess" /\ "x" \in DOMAIN L /\ Computable(s, a, FALSE)) =>
    LET x == L.x IN
    /\ SheetRules(i, s, a, x)
    /\ "borrow" \in DOMAIN x => BorrowRules(i, s, a, op.t, op.ratio, x.borrow)
    /\ "swap" \in DOMAIN x =>
         /\ SwapRules(i, s, a, op.st, op.tt, op.px, op.ratio, x.swap[1])
         /\ x.swap[1].r = x.swap[2].r \/ Rule(i, "C29 limits do not change whether a swap is sized", FALSE)
         /\ (Got(x.swap[1]) /\ Got(x.swap[2])) => SwapLimits(i, s, a, op.st, op.tt, op.px, x.swap[1].v, x.swap[2].v)
    /\ "perp" \in DOMAIN x => PerpRules(i, s, a, op.p, op.side, op.pp, op.ratio, x.perp)
=============================================================================
