-------------------------------- MODULE C04 --------------------------------
(* Liquidation: who may be liquidated, by how much, at what price. *)
EXTENDS Perp, Edits
Dust4 == "562949953"                                  \* two native units per million
LiqOps4 == {"liq_token", "perp_liq_base", "perp_liq_neg", "perp_liq_cancel", "s3_liq_cancel"}
\* A health as recorded, if it agrees with the specification; the specification's otherwise.
\* (The amounts below divide it, and are compared exactly.)
Wit(s, a, ty) == LET g == HealthG(s, a, ty)  h == Hlt(s, a)[ty] IN IF HNear(h, g[1], g[2]) THEN h ELSE g[1]
HT(s, a, ty) == HTol(HealthG(s, a, ty)[2])
\* with allowance: surely / possibly liquidatable
MayLiq(s, a) ==
  LET A == Acc(s, a) IN
  IF A.bl = 1 THEN ~Recovers(Sub(Wit(s, a, "e"), HT(s, a, "e"))) ELSE IsNeg(Sub(Wit(s, a, "m"), HT(s, a, "m")))
MustLiq(s, a) ==
  LET A == Acc(s, a) IN
  IF A.bl = 1 THEN ~Recovers(Add(Wit(s, a, "e"), HT(s, a, "e"))) ELSE IsNeg(Add(Wit(s, a, "m"), HT(s, a, "m")))
\* everything but the being-liquidated mark
Body(A) == [A EXCEPT !.bl = 0]
Else(pre, post, as) == \A a \in AllAccs(pre) \ as : pre.A[a + 1] = post.A[a + 1]
\* nothing of the account but its positions in the tokens ts changes
OnlyToks(U, V, ts) ==
  /\ \A k \in DOMAIN U.tp : U.tp[k].i \in ts \cup {-1} \/ Same(U.tp[k], V.tp[k])
  /\ \A k \in DOMAIN V.tp : V.tp[k].i = -1 \/ V.tp[k].i \in ts \/ HasTok(U, V.tp[k].i)
  /\ \A f \in {"s3", "pp", "oo", "cs", "num", "own", "del", "hr", "sq", "nd", "fu", "bc", "bp", "bx", "nid", "td", "tdx", "name"} : Same(U[f], V[f])
DivZ(a, b) == IF Eq(b, 0) THEN 0 ELSE FxDiv(a, b)

\* ------------------------------------------------ the being-liquidated mark
\* what the mark is after the operation went through
EndMark(s, a, old) ==            \* set of possible values
  IF old = 0 THEN {0}
  ELSE LET h == Wit(s, a, "e")  t == HT(s, a, "e") IN
       (IF Recovers(Add(h, t)) THEN {0} ELSE {}) \cup (IF Recovers(Sub(h, t)) THEN {} ELSE {1})
Forced4(L) ==
  LET op == L.op IN
  CASE op.op = "perp_liq_cancel" -> Lt(L.pre.now, Acc(L.pre, op.a).fu) \/ Perp(L.pre, op.p).fc = 1
    [] op.op = "s3_liq_cancel" -> Lt(L.pre.now, Acc(L.pre, op.a).fu) \/ Spot(L.pre, op.s).fc = 1
    [] OTHER -> FALSE
C04_Mark(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  a == op.a  n == op.op
      A == Acc(pre, a)  B == Acc(post, a) IN
  /\ (~MayLiq(pre, a) /\ ~Forced4(L)) =>
       Rule(i, "C04 nothing happens to an account that is not liquidatable",
            /\ Same(Body(A), Body(B)) /\ Else(pre, post, {a}) /\ B.bl = 0
            /\ pre.B = post.B /\ pre.P = post.P /\ pre.W = post.W /\ pre.OO = post.OO /\ pre.EQ = post.EQ)
  /\ LET mid == (IF MayLiq(pre, a) THEN {1} ELSE {}) \cup (IF MustLiq(pre, a) THEN {} ELSE {0}) IN
     Rule(i, "C04 the mark is set while the account is liquidatable and removed once it has recovered",
          \* no recovery test follows when nothing was done
          B.bl \in UNION {EndMark(post, a, m) : m \in mid} \cup (IF 0 \in mid THEN {0} ELSE {}))
\* operations that may let an account recover first
PreChecks == {"withdraw", "perp_place", "perp_peg", "s3_place", "tcs_start", "tcs_trigger", "flash_end", "region_begin", "region_end",
  "deposit", "deposit_existing", "liq_bankruptcy", "force_close_borrows", "force_withdraw"} \cup LiqOps4
C04_Marks(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  n == op.op IN
  (pre.A # post.A /\ n \notin {"batch", "init", "account_close", "account_create"}) =>
  \A a \in Accs(pre) \cap Accs(post) : (Acc(pre, a).bl # Acc(post, a).bl) =>
    /\ Rule(i, "C04 only a liquidation marks an account", Acc(post, a).bl = 0 \/ n \in LiqOps4 \cup {"liq_bankruptcy", "via_proxy"})
    /\ Rule(i, "C04 only the account acted on is marked", a = op.a \/ n = "via_proxy")
    /\ (Acc(post, a).bl = 0) =>
         Rule(i, "C04 the mark goes only with the account's recovery",
              /\ n \in PreChecks \cup {"via_proxy"}
              /\ \/ Recovers(Add(HealthX(pre, a, "i", TRUE, NoAdj)[1], HT(pre, a, "i")))
                 \/ Recovers(Add(HealthX(pre, a, "e", TRUE, NoAdj)[1], HT(pre, a, "e")))
                 \/ Recovers(Add(HealthX(post, a, "e", TRUE, NoAdj)[1], HTol(HealthX(post, a, "e", TRUE, NoAdj)[2]))))
Risky == {"withdraw", "perp_place", "perp_peg", "s3_place", "tcs_start", "flash_end", "region_begin"}
C04_Owner(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  n == op.op IN
  /\ (n \in Risky /\ pre.A[op.a + 1] # post.A[op.a + 1]) =>
       Rule(i, "C04 an account being liquidated takes no new risk", Acc(post, op.a).bl = 0)
  /\ (n = "account_close" /\ Bit(G(op, "force", 0)) = 0) => Rule(i, "C04 an account being liquidated is not closed", Acc(pre, op.a).bl = 0)
  /\ (n \in {"liq_token", "liq_bankruptcy", "perp_liq_base", "perp_liq_neg", "force_close_borrows", "tcs_trigger"} /\ pre.A # post.A) =>
       Rule(i, "C04 who is being liquidated does not liquidate", Acc(pre, op.l).bl = 0 \/ pre.A[op.l + 1] = post.A[op.l + 1])
LiqorOk(i, L) ==
  LET s == L.post  l == L.op.l IN
  (Acc(s, l).hr = 0) => Rule(i, "C04 the liquidator stays healthy",
       Computable(s, l, FALSE) /\ Ge(Add(Wit(s, l, "i"), HT(s, l, "i")), 0))

\* ------------------------------------------------ tokens for tokens
C04_Token(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  e == op.a  l == op.l
      A == Acc(pre, e)  Q == Acc(pre, l)  A2 == Acc(post, e)  Q2 == Acc(post, l)
      ab == Bank0(pre, op.at)  lb == Bank0(pre, op.lt)
      I == HInfoStd(pre, e, "e")
      fq == FxMul(Add(One, lb.lf), Add(One, ab.lf))
      ft == FxMul(Add(Add(One, lb.lf), lb.plf), Add(Add(One, ab.lf), ab.plf))
      lp == TPrice(pre, op.lt)  ap == TPrice(pre, op.at)
      lopa == FxMul(lp, ft)
      nl == Native(TIdx(A, op.lt), lb)  na == Native(TIdx(A, op.at), ab)
      maxL == Max(Min(Min(IF "n_bits" \in DOMAIN op THEN op.n_bits ELSE FxInt(op.n), NegB(nl)), NegB(EffBal(I, op.lt, FALSE))), 0)
      maxA == Max(Min(na, EffBal(I, op.at, FALSE)), 0)
      h == Wit(pre, e, "e")
      need == DivZ(NegB(h), Sub(FxMul(lp, lb.ilw), FxMul(lopa, ab.iaw)))
      able == DivZ(FxMul(maxA, ap), lopa)
      n == Max(Min(Min(need, able), maxL), 0)
      base == DivZ(FxMul(n, lp), ap)
      toQ == FxMul(base, fq)  fromA == FxMul(base, ft)  fee == Sub(fromA, toQ)
      l1 == BankDeposit(lb, TIdx(A, op.lt), n, TRUE, pre.now)
      l2 == BankWithdraw(l1.bk, TIdx(Q, op.lt), n, TRUE, ~(HasTok(Q, op.lt) /\ TPos(Q, op.lt).u > 0), pre.now)
      a1 == BankDeposit([ab EXCEPT !.fee = Add(@, fee), !.lfee = Add(@, fee)], TIdx(Q, op.at), toQ, ~(HasTok(Q, op.at) /\ TPos(Q, op.at).u > 0), pre.now)
      a2 == BankWithdraw(a1.bk, TIdx(A, op.at), fromA, FALSE, TRUE, pre.now)
      Lb2 == Bank0(post, op.lt)  Ab2 == Bank0(post, op.at)
      he == Wit(post, e, "e")
      tol == Add(Add(HT(pre, e, "e"), HT(post, e, "e")), Add(lp, ap))
      given == Sub(Native(TIdx(A2, op.lt), Lb2), nl)
      taken == Sub(na, Native(TIdx(A2, op.at), Ab2))
  IN
  /\ Rule(i, "C04 a liquidation pays a debt out of an asset", IsNeg(nl) /\ IsPos(na) /\ op.at # op.lt /\ l # e /\ IsPos(maxL) /\ IsPos(maxA))
  /\ Rule(i, "C04 protected assets are not liquidated", ab.dal = 0)
  /\ Rule(i, "C04 orders and unsettled funds go first", ~Phase1(pre, e))
  \* what the property asks for, whatever the exact amounts
  /\ Rule(i, "C04 a debt is not turned into a deposit, nor an asset into a debt",
          Le(TIdx(A2, op.lt), 0) /\ Ge(Native(TIdx(A2, op.at), Ab2), NegB(Add(One, TDiv(na, "16777216"))))
          /\ Ge(TIdx(A2, op.lt), TIdx(A, op.lt)) /\ Le(TIdx(A2, op.at), TIdx(A, op.at)))
  /\ Rule(i, "C04 no more is liquidated than asked for", Le(given, Add(maxL, One)))
  /\ Rule(i, "C04 health is not moved beyond the liquidation end", Le(he, Add(Max(h, 0), tol)))
  /\ Rule(i, "C04 liquidating does not worsen health", Ge(he, Sub(h, tol)))
  /\ Rule(i, "C04 the debtor pays at most the price with the configured fees",
          Le(taken, Add(Add(DivZ(FxMul(FxMul(Add(given, "1000000"), lp), ft), ap), TDiv(taken, "16777216")), Add(One, DivZ(lp, ap)))))
  \* and exactly
  /\ Rule(i, "C04 the debt is paid by exactly the amount specified",
          Eq(TIdx(A2, op.lt), l1.x) /\ Eq(TIdx(Q2, op.lt), l2.x) /\ LedgerEq(l2.bk, Lb2))
  /\ Rule(i, "C04 the asset goes over at the oracle price with the configured fees",
          Eq(TIdx(Q2, op.at), a1.x) /\ Eq(TIdx(A2, op.at), a2.x) /\ LedgerEq(a2.bk, Ab2) /\ Eq(a2.bk.lfee, Ab2.lfee))
  /\ Rule(i, "C04 a token liquidation touches nothing else",
          /\ pre.W = post.W /\ pre.P = post.P /\ pre.OO = post.OO /\ Else(pre, post, {e, l})
          /\ OnlyToks(A, A2, {op.at, op.lt}) /\ OnlyToks(Q, Q2, {op.at, op.lt})
          /\ \A t \in Toks(pre) \ {op.at, op.lt} : pre.B[t + 1] = post.B[t + 1]
          /\ Eq(lb.v, Lb2.v) /\ Eq(ab.v, Ab2.v))
  /\ LiqorOk(i, L)

\* ------------------------------------------------ perp positions
SpotGiven(h, bal, awp, lwp) ==
  \* spot that brings health h to zero
  LET g == NegB(h)  b == NegB(bal) IN
  IF ~IsPos(g) THEN 0
  ELSE IF ~IsPos(b) THEN DivZ(g, awp)
  ELSE IF IsPos(lwp) /\ Le(FxDiv(g, lwp), b) THEN FxDiv(g, lwp)
  ELSE LET rest == Sub(g, FxMul(b, lwp)) IN IF IsPos(rest) THEN Add(b, DivZ(rest, awp)) ELSE b
\* E: [awp, lwp, lots, maxB, maxX]; st: [h, u, s, b, x]
Contrib4(E, s) == FxMul(s, IF IsNeg(s) THEN E.lwp ELSE E.awp)
Moved4(E, st, ns) == [st EXCEPT !.s = ns, !.h = Add(Sub(@, Contrib4(E, st.s)), Contrib4(E, ns))]
Reduce(E, st, lim, exp, act, per) ==
  LET tok == Min(SpotGiven(st.h, st.s, E.awp, E.lwp), lim)
      lots == Max(Min(Min(FxCeil(DivZ(tok, exp)), Sub(E.lots, st.b)), Sub(E.maxB, st.b)), 0)
      r == Moved4(E, st, Add(st.s, FxMul(act, FxInt(lots))))
  IN [r EXCEPT !.u = Add(@, FxMul(per, FxInt(lots))), !.b = Add(@, lots)]
Settle4(E, st, per) ==
  LET x == Max(Min(Min(DivZ(SpotGiven(st.h, st.s, E.awp, E.lwp), per), Sub(E.maxX, st.x)), st.u), 0)
      r == Moved4(E, st, Add(st.s, FxMul(x, per)))
  IN [r EXCEPT !.u = Sub(@, x), !.x = Add(@, x)]
\* the base lots and pnl a liquidation takes over
Takeover(h, u, s, E, per, spot, iow) ==
  LET s0 == [h |-> h, u |-> u, s |-> s, b |-> 0, x |-> 0]
      s1 == IF IsNeg(s0.u) THEN Reduce(E, s0, NegB(s0.u), per, per, per) ELSE s0
      set(st) == IF ~IsNeg(st.u) /\ Gt(spot, iow) THEN Settle4(E, st, Sub(spot, iow)) ELSE st
      s2 == set(s1)
      s3 == IF ~IsNeg(s2.u) /\ Lt(s2.x, E.maxX) THEN Reduce(E, s2, Sub(E.maxX, s2.x), FxMul(per, spot), FxMul(per, iow), per) ELSE s2
      s4 == set(s3)
      gain == FxMul(per, iow)
      s5 == IF Lt(s4.h, "-140737488355328") /\ IsPos(iow) THEN Reduce(E, s4, "170141183460469231731687303715884105727", gain, gain, per) ELSE s4
  IN s5
C04_Base(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  e == op.a  l == op.l  p == op.p
      m == Perp(pre, p)  t == m.st  px == POra(pre, p).px
      A == Acc(pre, e)  Q == Acc(pre, l)  A2 == Acc(post, e)  Q2 == Acc(post, l)
      I == HInfoStd(pre, e, "e")  ti == I.toks[t]
      P0 == PPos(A, p)
      F == UpdateWindow(SettleFunding(P0, m), m, pre.now)
      R == SettleFunding(PosOrNew(Q, p), m)
      F2 == PPos(A2, p)  R2 == PPos(Q2, p)
      long == IsPos(F.b)
      facL == IF long THEN Sub(One, m.blf) ELSE Add(One, m.blf)
      facA == IF long THEN Sub(facL, m.plf) ELSE Add(facL, m.plf)
      lot == FxMul(FxInt(m.bl), px)
      per == FxMul(lot, IF long THEN Sub(facA, m.iaw) ELSE Sub(m.ilw, facA))
      spot == Sub(One, m.pplf)
      E == [awp |-> FxMul(ti.aw, ti.ap), lwp |-> FxMul(ti.lw, ti.lp), lots |-> Abs(F.b), maxB |-> Abs(op.base), maxX |-> FxInt(op.pnl)]
      h == Wit(pre, e, "e")
      want == Takeover(h, UnweightedHupnl(P0, m, PPrice(pre, p), "e"), EffBal(I, t, FALSE), E, per, spot, m.iow)
      dB == Sub(F2.b, F.b)
      qb == FxMul(FxInt(NegB(dB)), lot)
      qe == FxMul(qb, facA)  ql == FxMul(NegB(qb), facL)
      r1 == IF Eq(dB, 0) THEN <<F, m>> ELSE RecordTrade(F, m, dB, qe)
      r2 == IF Eq(dB, 0) THEN <<R, m>> ELSE RecordTrade(R, r1[2], NegB(dB), ql)
      pf == Max(Sub(NegB(ql), qe), 0)
      m2 == [r2[2] EXCEPT !.fa = Add(@, pf), !.alf = Add(@, pf)]
      x == Sub(R2.q, r2[1].q)                                   \* pnl taken over
      tok == FxMul(x, spot)
      \* the share of the settle limit that goes with it
      lim == SettleLimit(F, m)[2]
      tot == Max(Max(FxCeil(PnlAt(r1[1], m2, px)), 1), FxFloor(x))
      once1 == Max(FxCeil(r1[1].oa), 0)
      rec1 == Max(Sub(lim, once1), 0)
      most == FxCeil(x)
      tr == Max(Min(FDiv(Mul(rec1, FxFloor(x)), tot), most), 1)
      to == Max(Min(FDiv(Mul(once1, FxFloor(x)), tot), Sub(most, tr)), 0)
      k == FxTrunc(tok)
      Fe == IF Eq(x, 0) THEN r1[1] ELSE [RecordSettle(r1[1], x, m2) EXCEPT !.ps = Add(@, k)]
      Re == IF Eq(x, 0) THEN r2[1] ELSE [r2[1] EXCEPT !.q = Add(@, x), !.ra = Add(@, tr), !.oa = Add(@, FxInt(to)), !.ps = Sub(@, k)]
      bk == Bank0(pre, t)  bk2 == Bank0(post, t)
      b1 == IF Eq(x, 0) THEN [bk |-> bk, x |-> TIdx(A, t)] ELSE BankDeposit(bk, TIdx(A, t), tok, ~(TPos(A, t).u > 0), pre.now)
      qIn == IF HasTok(Q, t) THEN TPos(Q, t).u > 0 \/ ~HasPerp(Q, p) ELSE TRUE
      b2 == IF Eq(x, 0) THEN [bk |-> bk, x |-> TIdx(Q, t)] ELSE BankWithdraw(b1.bk, TIdx(Q, t), tok, FALSE, ~qIn, pre.now)
      he == Wit(post, e, "e")
      tol == Add(HT(pre, e, "e"), HT(post, e, "e"))
  IN
  /\ Rule(i, "C04 perp liquidation is of someone else", l # e)
  /\ Rule(i, "C04 orders and unsettled funds go first", ~Phase1(pre, e))
  /\ Rule(i, "C04 no fills may be pending", Eq(P0.tb, 0) /\ Eq(P0.tq, 0))
  /\ Rule(i, "C04 a perp position only shrinks towards zero, by at most what was asked for",
          /\ Le(Abs(dB), Abs(F.b)) /\ Le(Abs(dB), Abs(op.base)) /\ Eq(Sub(Abs(F.b), Abs(F2.b)), Abs(dB))
          /\ Eq(Sub(R2.b, R.b), NegB(dB)) /\ (IF long THEN Ge(op.base, 0) ELSE Le(op.base, 0)))
  /\ Rule(i, "C04 no more profit is taken over than asked for", Ge(x, 0) /\ Le(x, FxInt(op.pnl)))
  /\ Rule(i, "C04 health is not moved beyond the liquidation end, but for the last lot",
          Le(he, Add(Max(h, 0), Add(tol, IF Eq(dB, 0) THEN One ELSE Add(One, FxMul(per, Max(E.awp, E.lwp)))))))
  /\ Rule(i, "C04 liquidating does not worsen health", Ge(he, Sub(h, tol)))
  /\ Rule(i, "C04 the base and the profit taken over are what is needed", Eq(Abs(dB), want.b) /\ Within(x, want.x, 4096))
  /\ Rule(i, "C04 the liquidatee's position pays the price with the configured fees", PosSame(Fe, F2, dB))
  /\ Rule(i, "C04 the liquidator's position is paid the price with the configured fees", PosSame(Re, R2, dB))
  /\ Rule(i, "C04 the platform gets its fee, the market loses what was closed",
          Eq(m2.fa, Perp(post, p).fa) /\ Eq(m2.alf, Perp(post, p).alf) /\ Eq(m2.oi, Perp(post, p).oi)
          /\ Changed(m, Perp(post, p)) \subseteq {"fa", "alf", "oi"})
  /\ Rule(i, "C04 profit taken over is paid for in the settle token, less the fee",
          Eq(TIdx(A2, t), b1.x) /\ Eq(TIdx(Q2, t), b2.x) /\ LedgerEq(b2.bk, bk2))
  /\ Rule(i, "C04 a perp liquidation touches nothing else",
          /\ pre.W = post.W /\ pre.BD = post.BD /\ pre.AK = post.AK /\ pre.EQ = post.EQ /\ pre.OO = post.OO /\ Else(pre, post, {e, l})
          /\ \A q \in Perps(pre) \ {p} : pre.P[q + 1] = post.P[q + 1]
          /\ \A u \in Toks(pre) \ {t} : pre.B[u + 1] = post.B[u + 1]
          /\ \A a \in {e, l} : LET U == Acc(pre, a) V == Acc(post, a) IN
               /\ \A j \in DOMAIN U.pp : U.pp[j].m \in {p, -1} \/ Same(U.pp[j], V.pp[j])
               /\ \A j \in DOMAIN U.tp : U.tp[j].i \in {t, -1} \/ Same(U.tp[j], V.tp[j])
               /\ Same(U.oo, V.oo) /\ Same(U.s3, V.s3) /\ Same(U.cs, V.cs))
  /\ LiqorOk(i, L)

C04_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op  pre == L.pre  post == L.post
      plain == "subst" \notin DOMAIN op IN
  /\ L.ok = 1 =>
     /\ n \in LiqOps4 => C04_Mark(i, L)
     /\ C04_Marks(i, L) /\ C04_Owner(i, L)
     /\ (plain /\ n = "liq_token" /\ pre.A[op.l + 1] # post.A[op.l + 1]) => C04_Token(i, L)
     /\ (plain /\ n = "perp_liq_base" /\ ~Same(Body(Acc(pre, op.a)), Body(Acc(post, op.a)))) => C04_Base(i, L)
     /\ (n = "liq_bankruptcy" /\ pre.A # post.A) =>
          Rule(i, "C04 only an account without means is bankrupt",
               LET h == Wit(pre, op.a, "m") IN
               Lt(Sub(h, HT(pre, op.a, "m")), SumSeq([k \in DOMAIN TokSeq(Acc(pre, op.a)) |-> TPrice(pre, TokSeq(Acc(pre, op.a))[k])])))
  \* refusals have their reasons
  /\ (L.ok = 0 /\ plain /\ n \in {"liq_token", "perp_liq_base", "perp_liq_neg", "liq_bankruptcy"}) =>
     /\ (L.code = 6034) => Rule(i, "C04 refused for unsettled spot funds only then", HasSpotFunds(pre, op.a))
     /\ (L.code = 6022) => Rule(i, "C04 refused for open perp orders only then", HasPerpOrders(pre, op.a))
     /\ (L.code = 6016) => Rule(i, "C04 a liquidator is refused as being liquidated only then", Acc(pre, op.l).bl = 1)
     /\ (L.code = 6035) => Rule(i, "C04 bankruptcy is refused for liquidatable tokens only then",
            LET I == HInfoStd(pre, op.a, "e") IN LiqBorrows(pre, I) /\ LiqAssets(pre, I))
     /\ (L.code = 6036) => Rule(i, "C04 bankruptcy is refused for open perp positions only then", HasPerpBase(pre, op.a))
     /\ (L.code = 6037) => Rule(i, "C04 bankruptcy is refused for perp profits only then", PnlNoBase(pre, op.a, TRUE))
     /\ (L.code = 6040) => Rule(i, "C04 refused for pending fills only then", HasPerpFills(pre, op.a))
     /\ (L.code = 6006 /\ n \in {"liq_token", "perp_liq_base"} /\ Acc(pre, op.l).hr = 0) =>
          Rule(i, "C04 someone who may be liquidated is not let off because of others", MayLiq(pre, op.a))
=============================================================================
