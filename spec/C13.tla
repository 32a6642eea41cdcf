-------------------------------- MODULE C13 --------------------------------
(* Settlement of perp profits and losses. *)
EXTENDS Perp, Edits
\* one native unit per million: what indexed balances may round by
Dust6 == "562949953"
Settling(L) ==
  LET op == L.op  s == L.pre  p == op.p  m == Perp(s, p)  px == POra(s, p).px
      Fa == UpdateWindow(SettleFunding(PPos(Acc(s, op.a), p), m), m, s.now)
      Fb == UpdateWindow(SettleFunding(PPos(Acc(s, op.b), p), m), m, s.now)
      pa == PnlAt(Fa, m, px)  pb == PnlAt(Fb, m, px)
      sa == ApplyLimit(Fa, m, pa)  sb == ApplyLimit(Fb, m, pb)
  IN [m |-> m, Fa |-> Fa, Fb |-> Fb, pa |-> pa, pb |-> pb, sa |-> sa, sb |-> sb, px |-> px]
SettleFee(m, amt, pnlValue, posValue, he, hm) ==
  IF ~Gt(Mul(100, pnlValue), posValue) THEN 0
  ELSE LET low == IF ~IsNeg(he) THEN 0
                  ELSE IF IsNeg(hm) THEN FxMul(amt, m.sfl) ELSE FxMul(FxMul(amt, m.sfl), FxDiv(NegB(he), Sub(hm, he)))
           flat == m.sff
       IN Min(IF Ge(amt, m.sft) THEN flat ELSE Min(low, Mul(flat, 2)), amt)
Near6(x) == TDiv(Abs(x), 1000000)
RoundHalfUp(x) == FxFloor(Add(x, "140737488355328"))
\* how far a recomputed perp_max_settle may be off
MaxSettleTol(s, a, t) ==
  LET I == HInfoStd(s, a, "m")  g == HealthOf(I, TRUE)  ti == I.toks[t]
      aw == FxMul(ti.aw, ti.ap)  lw == FxMul(ti.lw, ti.lp)
      w == IF IsPos(aw) THEN Min(aw, lw) ELSE lw
  IN Add(FxDiv(Mul(HTol(g[2]), 2), w), Add(TDiv(Abs(EffBal(I, t, TRUE)), "1000000000"), 1024))
\* native value of a token position, at the bank's indexes after
NatIn(s, a, t) == Native(TIdx(Acc(s, a), t), Bank0(s, t))
C13_Settle(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      X == Settling(L)  m == X.m  t == m.st
      A == Acc(pre, op.a)  B == Acc(pre, op.b)
      Pa == PPos(Acc(post, op.a), p)  Pb == PPos(Acc(post, op.b), p)
      amt == Sub(Pb.q, X.Fb.q)                       \* the settled amount
      top == Min(X.sa, NegB(X.sb))
      bmax == PerpMaxSettle(pre, op.b, t)
      \* the account's health values decide the fee
      he == HealthG(pre, op.a, "e")  hm == HealthG(pre, op.a, "m")
      fee == SettleFee(m, amt, FxMul(X.pa, Ora(pre, t).px), FxMul(FxInt(Abs(Mul(X.Fa.b, m.bl))), X.px), he[1], hm[1])
      ftol == Add(Add(Near6(fee), Near6(amt)), 64)
      \* what each account's settle token balance changed by
      who == {op.a, op.b, op.s}
      d(a) == Sub(NatIn(post, a, t), NatIn(pre, a, t))
      feeSeen == Sub(amt, IF op.s = op.a THEN amt ELSE d(op.a))
      \* the transfer statistics show the fee in whole units, whoever the settler is
      feeInt == Sub(FxTrunc(amt), Sub(Pa.ps, X.Fa.ps))
  IN
  /\ Rule(i, "C13 settlement is between a winner and a loser", op.a # op.b /\ IsPos(X.pa) /\ IsNeg(X.pb))
  /\ Rule(i, "C13 settlement within both settle limits", IsPos(X.sa) /\ IsNeg(X.sb) /\ IsPos(top) /\ Ge(amt, 0) /\ Le(amt, top))
  /\ Rule(i, "C13 settlement within what the loser can pay", IsPos(Add(bmax, MaxSettleTol(pre, op.b, t))) /\ Le(amt, Add(bmax, MaxSettleTol(pre, op.b, t))))
  /\ Rule(i, "C13 all that may be settled is settled", Eq(amt, top) \/ Within(amt, bmax, MaxSettleTol(pre, op.b, t)))
  /\ Rule(i, "C13 the winner's position", PosSame([RecordSettle(X.Fa, amt, m) EXCEPT !.ps = Pa.ps], Pa, 0))
  /\ Rule(i, "C13 the loser's position", PosSame([RecordSettle(X.Fb, NegB(amt), m) EXCEPT !.ps = Sub(@, FxTrunc(amt))], Pb, 0))
  /\ Rule(i, "C13 zero sum in the market", Eq(Add(Sub(Pa.q, X.Fa.q), Sub(Pb.q, X.Fb.q)), 0))
  /\ Rule(i, "C13 the fee is the configured one", Ge(feeInt, 0) /\ Within(FxInt(feeInt), fee, Add(One, ftol)) /\ Le(feeInt, FxTrunc(amt)))
  /\ op.s # op.a => Rule(i, "C13 the winner receives the settlement less the fee",
       Within(d(op.a), Sub(amt, fee), Add(ftol, Dust6)))
  /\ op.s # op.b => Rule(i, "C13 the loser pays the settlement", Within(d(op.b), NegB(amt), Dust6))
  /\ op.s \notin {op.a, op.b} => Rule(i, "C13 the settler receives the fee",
       Within(d(op.s), fee, Add(ftol, IF IsNeg(TIdx(Acc(pre, op.s), t)) THEN One ELSE Dust6)))
  /\ Rule(i, "C13 nothing is paid but to and from those three",
       Within(Add(Add(d(op.a), IF op.b = op.a THEN 0 ELSE d(op.b)), IF op.s \in {op.a, op.b} THEN 0 ELSE d(op.s)), 0, Add(One, Dust6)))
  /\ Rule(i, "C13 no other account, and no other position, takes part",
       \A a \in AllAccs(pre) :
         IF a \notin who THEN pre.A[a + 1] = post.A[a + 1]
         ELSE LET U == Acc(pre, a)  V == Acc(post, a) IN
              /\ \A k \in DOMAIN U.pp : (U.pp[k].m = p /\ a \in {op.a, op.b}) \/ Same(U.pp[k], V.pp[k])
              /\ \A k \in DOMAIN U.tp : U.tp[k].i \in {t, -1} \/ Same(U.tp[k], V.tp[k])
              /\ Same(U.oo, V.oo) /\ Same(U.s3, V.s3) /\ Same(U.cs, V.cs))
  /\ Rule(i, "C13 the market itself keeps its figures", pre.P = post.P)
\* settling the market's accrued fees against a loser
C13_Fees(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p  m == Perp(pre, p)  t == m.st
      F == UpdateWindow(SettleFunding(PPos(Acc(pre, op.a), p), m), m, pre.now)
      pnl == PnlAt(F, m, POra(pre, p).px)
      able == ApplyLimit(F, m, pnl)
      amt == IF ~IsNeg(able) \/ ~IsPos(m.fa) THEN 0 ELSE Min(Min(NegB(able), m.fa), FxInt(op.n))
      E == IF Eq(amt, 0) THEN F ELSE [RecordSettle(F, NegB(amt), m) EXCEPT !.ps = Sub(@, RoundHalfUp(amt))]
      m2 == Perp(post, p)
  IN
  /\ Rule(i, "C13 fees settle against a loss, within its settle limit", PosSame(E, PPos(Acc(post, op.a), p), 0))
  /\ Rule(i, "C13 settled fees leave the accrued ones", Eq(m2.fa, Sub(m.fa, amt)) /\ Eq(m2.fs, Add(m.fs, amt)) /\ Changed(m, m2) \subseteq {"fa", "fs"})
  /\ Rule(i, "C13 the loser pays the settled fees", Within(Sub(NatIn(post, op.a, t), NatIn(pre, op.a, t)), NegB(amt), Dust6))
  /\ Rule(i, "C13 settling fees concerns one account", \A a \in AllAccs(pre) : a = op.a \/ pre.A[a + 1] = post.A[a + 1])
SettleOps == {"perp_settle_pnl", "perp_settle_fees"}
\* operations that may use up or add to a position's settle allowance
LimitOps == SettleOps \cup {"perp_place", "perp_peg", "perp_consume", "perp_liq_base", "perp_liq_neg", "perp_force_close", "perp_deactivate",
  "perp_cancel", "perp_cancel_cid", "perp_cancel_all", "perp_cancel_side", "perp_liq_cancel", "account_expand", "account_migrate", "account_close",
  "batch", "via_proxy", "init"}
SettleFields == {"sw", "ss", "oa", "ra", "rp", "q"}
C13_Rules(i) ==
  LET L == Trace[i]  op == L.op  n == op.op IN
  /\ (L.ok = 1 /\ n = "perp_settle_pnl") => C13_Settle(i, L)
  /\ (L.ok = 1 /\ n = "perp_settle_fees") => C13_Fees(i, L)
  /\ (L.ok = 1 /\ n \notin LimitOps) =>
       \A a \in AllAccs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ Live(L.pre, a) /\ Live(L.post, a)) =>
         \A p \in Perps(L.pre) : (HasPerp(Acc(L.pre, a), p) /\ HasPerp(Acc(L.post, a), p)) =>
           Rule(i, "C13 nothing else touches settlement", \A f \in SettleFields : Eq(PPos(Acc(L.pre, a), p)[f], PPos(Acc(L.post, a), p)[f]))
  \* within one settle window only an allowed amount was settled
  /\ (L.ok = 1 /\ n \in SettleOps) => LET p == op.p  m == Perp(L.pre, p) IN
       \A a \in {op.a} \cup (IF n = "perp_settle_pnl" THEN {op.b} ELSE {}) :
         LET x == PPos(Acc(L.pre, a), p)  y == PPos(Acc(L.post, a), p)
             start == IF Eq(x.sw, y.sw) THEN x.ss ELSE 0
             lim == SettleLimit(SettleFunding(x, m), m) IN
         IsNeg(m.spf) \/ /\ Rule(i, "C13 the window is the current one", Eq(y.sw, FDiv(L.pre.now, m.spz)))
                         /\ Rule(i, "C13 a window's settlements stay within its allowance",
                              /\ Le(y.ss, Max(Add(lim[2], 1), start)) /\ Ge(y.ss, Min(Sub(lim[1], 1), start)))
  \* refusals have their reasons
  /\ (L.code = 6018 /\ n = "perp_settle_pnl") =>
       LET X == Settling(L) IN Rule(i, "C13 refused only when there is nothing to settle", ~(IsPos(X.sa) /\ IsNeg(X.sb)))
  /\ (L.code = 6019) => Rule(i, "C13 refused to settle with oneself only then", op.a = op.b)
C13_Line(i) ==
  LET L == Trace[i] IN
  /\ C13_Rules(i)
  /\ PerpEdits(i, L, "C13", "settlement parameters", {"spf", "spz", "sff", "sft", "sfl"}) /\ PerpFixed(i, L, "C13", "settlement parameters", {"spf", "spz", "sff", "sft", "sfl"})
=============================================================================
