-------------------------------- MODULE C05 --------------------------------
(* Bankruptcy: insurance first, then exactly the remaining loss is socialized. *)
EXTENDS C04
InsTok == 0                                            \* the token the insurance fund is kept in
InUse5(A, t) == HasTok(A, t) /\ TPos(A, t).u > 0
\* positions of market p in all accounts
Holders(s, p) == {a \in AllAccs(s) : Live(s, a) /\ HasPerp(Acc(s, a), p)}
SeqOf(S) == TLCEval([k \in 1..Cardinality(S) |-> CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1])

\* ------------------------------------------------ token bankruptcy
RECURSIVE Credit(_, _, _, _, _, _)
\* crediting amt to position x over the banks bs (numbers), all at the new index: <<banks, x, rest>>
Credit(bks, k, di, x, amt, now) ==
  IF k > Len(bks) THEN <<bks, x, amt>>
  ELSE LET b == [bks[k] EXCEPT !.di = di]
           n == Min(amt, NatBorrows(b))
           r == BankDeposit(b, x, n, TRUE, now)
       IN IF IsPos(n) THEN Credit([bks EXCEPT ![k] = r.bk], k + 1, di, r.x, Sub(amt, n), now)
          ELSE Credit([bks EXCEPT ![k] = b], k + 1, di, x, amt, now)
C05_Token(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  e == op.a  l == op.l  t == op.lt
      A == Acc(pre, e)  Q == Acc(pre, l)  A2 == Acc(post, e)  Q2 == Acc(post, l)
      same == t = InsTok
      lb == Bank0(pre, t)  ib == Bank0(pre, InsTok)
      I == HInfoStd(pre, e, "e")
      nl == Native(TIdx(A, t), lb)
      loss0 == Min(NegB(nl), NegB(EffBal(I, t, FALSE)))
      ratio == IF same THEN One ELSE DivZ(FxMul(TPrice(pre, t), Add(One, lb.lf)), TPrice(pre, InsTok))
      vault == IF Tok(pre, t).gif = 1 THEN pre.ins ELSE 0
      paid == Min(FxCeil(FxMul(Min(loss0, FxInt(op.n)), ratio)), vault)
      exhausted == Eq(paid, vault)
      liab == DivZ(FxInt(paid), ratio)
      some == IsPos(paid)
      d1 == IF some THEN BankDeposit(lb, TIdx(A, t), liab, TRUE, pre.now) ELSE [bk |-> lb, x |-> TIdx(A, t), act |-> TRUE]
      loss1 == IF some THEN Sub(loss0, Sub(Native(d1.x, d1.bk), nl)) ELSE loss0
      q1 == BankDeposit(ib, TIdx(Q, InsTok), FxInt(paid), ~InUse5(Q, InsTok), pre.now)
      q2 == BankWithdraw(d1.bk, TIdx(Q, t), liab, TRUE, ~InUse5(Q, t), pre.now)
      over == some /\ ~same
      lb1 == IF over THEN q2.bk ELSE d1.bk
      soc == exhausted /\ IsPos(loss1)
      nB == Cardinality(Banks(pre, t))
      bks == TLCEval([k \in 1..nB |-> IF k = 1 THEN lb1 ELSE Bank(pre, t, k - 1)])
      tot == SumSeq([k \in DOMAIN bks |-> bks[k].id])
      di == Sub(lb.di, DivZ(loss1, tot))
      C == IF soc THEN Credit(bks, 1, di, d1.x, loss1, pre.now) ELSE <<bks, d1.x, 0>>
      seen == Sub(Bank0(pre, t).di, Bank0(post, t).di)                \* what the deposit index lost
      xA == TIdx(A2, t)
  IN
  /\ Rule(i, "C05 only an account with nothing left to liquidate is bankrupt", ~Phase1(pre, e) /\ ~Phase2(pre, e) /\ IsNeg(nl) /\ IsPos(loss0) /\ e # l)
  /\ Rule(i, "C05 the insurance fund pays, and no more than it has", Eq(Sub(pre.ins, post.ins), paid) /\ Le(paid, vault) /\ Ge(post.ins, 0))
  /\ Rule(i, "C05 what the insurance fund pays arrives",
          Eq(Bank0(post, InsTok).v, Add(ib.v, paid)) /\ (same \/ Eq(Bank0(post, t).v, lb.v)))
  /\ Rule(i, "C05 losses are socialized only once the insurance fund is used up", Eq(seen, 0) \/ (IF Tok(pre, t).gif = 1 THEN Eq(post.ins, 0) ELSE TRUE))
  \* what depositors lose, all banks together
  /\ Rule(i, "C05 depositors lose exactly the debt that remains",
          IF ~soc THEN Eq(seen, 0)
          ELSE /\ \A b \in Banks(pre, t) : Eq(Bank(post, t, b).di, di)
               /\ Within(FxMul(seen, tot), loss1, Add(Add(TDiv(tot, One), TDiv(loss1, One)), 16)) /\ Le(FxMul(seen, tot), loss1))
  /\ Rule(i, "C05 after a socialized loss nothing is left of the debt", soc => Eq(xA, 0))
  \* the insurance fund pays whole native tokens, so the last one may exceed the debt
  /\ Rule(i, "C05 a debt is not turned into a deposit beyond the rounding of the insurance payment",
          Ge(xA, TIdx(A, t)) /\ (Le(xA, 0) \/ (some /\ ~soc /\ Le(FxMul(xA, lb.di), Add(DivZ(One, ratio), 16)))))
  /\ Rule(i, "C05 the debtor is credited exactly what insurance and depositors bear", Eq(xA, C[2]))
  /\ Rule(i, "C05 the banks record the debt paid", \A k \in DOMAIN bks : (same /\ FALSE) \/ LedgerEq(C[1][k], Bank(post, t, k - 1)))
  /\ over => Rule(i, "C05 the liquidator takes the debt for the insurance and its fee",
                  Eq(TIdx(Q2, t), q2.x) /\ Eq(TIdx(Q2, InsTok), q1.x) /\ LedgerEq(q1.bk, Bank0(post, InsTok)))
  /\ ~over => Rule(i, "C05 without its help the liquidator gets nothing", Same(Q, Q2))
  /\ over => LiqorOk(i, L)
  /\ Rule(i, "C05 a bankruptcy touches nothing else",
          /\ pre.W = post.W /\ pre.P = post.P /\ pre.OO = post.OO /\ Else(pre, post, {e, l})
          /\ OnlyToks(A, A2, {t}) /\ OnlyToks(Q, Q2, {t, InsTok})
          /\ \A u \in Toks(pre) \ {t, InsTok} : pre.B[u + 1] = post.B[u + 1]
          /\ (over \/ same) \/ pre.B[InsTok + 1] = post.B[InsTok + 1]
          /\ \A b \in Banks(pre, InsTok) \ {0} : same \/ Same(Bank(pre, InsTok, b), Bank(post, InsTok, b)))
  /\ Rule(i, "C05 bankruptcy marks the account until it recovers", A2.bl \in EndMark(post, e, 1))

\* ------------------------------------------------ perp losses and bankruptcy
PerpTake(P, n) == [P EXCEPT !.q = Sub(@, n), !.oa = Sub(@, n)]
C05_Perp(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  e == op.a  l == op.l  p == op.p
      m == Perp(pre, p)  m2 == Perp(post, p)  t == m.st  px == POra(pre, p).px
      A == Acc(pre, e)  Q == Acc(pre, l)  A2 == Acc(post, e)  Q2 == Acc(post, l)
      sb == Bank0(pre, t)  sp == TPrice(pre, t)  ip == TPrice(pre, InsTok)
      same == t = InsTok
      F == UpdateWindow(SettleFunding(PPos(A, p), m), m, pre.now)
      R == SettleFunding(PosOrNew(Q, p), m)
      pnl == PnlAt(F, m, px)
      able == ApplyLimit(F, m, pnl)
      I == HInfoStd(pre, e, "e")
      cap == Max(Min(PerpMaxSettle(pre, e, t), NegB(able)), 0)
      s == Max(Min(cap, FxInt(op.n)), 0)
      did == IsPos(s)
      k == FxTrunc(s)
      F1 == IF did THEN [RecordSettle(F, NegB(s), m) EXCEPT !.ps = Sub(@, k)] ELSE F
      R1 == IF did THEN [PerpTake(R, s) EXCEPT !.ps = Add(@, k)] ELSE R
      qIn == HasTok(Q, t) => (TPos(Q, t).u > 0 \/ ~HasPerp(Q, p))
      b1 == BankDeposit(sb, TIdx(Q, t), s, ~qIn, pre.now)
      b2 == BankWithdraw(b1.bk, TIdx(A, t), s, FALSE, ~(TPos(A, t).u > 0), pre.now)
      \* balances and bank after the settlement
      xQ == IF did THEN b1.x ELSE TIdx(Q, t)
      xA == IF did THEN b2.x ELSE TIdx(A, t)
      sb1 == IF did THEN b2.bk ELSE sb
      pnl1 == PnlAt(F1, m, px)
      broke == Eq(s, cap) /\ IsNeg(pnl1)
      h == Wit(pre, e, "e")
      maxH == SpotGiven(h, EffBal(I, t, FALSE), FxMul(sp, sb.iaw), FxMul(sp, sb.ilw))
      from == Max(Min(NegB(pnl1), maxH), 0)
      to == Max(Min(from, Sub(FxInt(op.n), s)), 0)
      vault == IF m.gif = 1 THEN pre.ins ELSE 0
      pf == FxMul(sp, Add(One, m.blf))
      paid == IF broke THEN Min(FxCeil(DivZ(FxMul(to, pf), ip)), vault) ELSE 0
      liab == Min(DivZ(FxMul(FxInt(paid), ip), pf), to)
      some == IsPos(paid)
      ib == IF same THEN sb1 ELSE Bank0(pre, InsTok)
      xI == IF same THEN xQ ELSE TIdx(Q, InsTok)
      iIn == IF same THEN qIn ELSE InUse5(Q, InsTok)
      q1 == BankDeposit(ib, xI, FxInt(paid), ~iIn, pre.now)
      F2 == IF some THEN RecordSettle(F1, NegB(liab), m) ELSE F1
      R2 == IF some THEN PerpTake(R1, liab) ELSE R1
      rest == IF some THEN Sub(from, liab) ELSE from
      soc == broke /\ Eq(paid, vault) /\ IsPos(rest)
      per == IF Eq(m.oi, 0) THEN 0 ELSE FxDiv(rest, FxInt(m.oi))
      F3 == IF soc THEN RecordSettle(F2, NegB(rest), m) ELSE F2
      M3 == IF soc THEN [m EXCEPT !.lf = Add(@, per), !.sf = Sub(@, per)] ELSE m
      \* what holders owe more than before, the two settled here aside
      hs == SeqOf(Holders(pre, p))
      owed(st, mm) == SumSeq([j \in DOMAIN hs |-> UnsettledFunding(PPos(Acc(st, hs[j]), p), mm)])
      lost == Sub(owed(post, m2), owed(post, m))
      E == PPos(A2, p)  G2 == PPos(Q2, p)
      qt == Sub(E.q, F.q)                                    \* what the debtor was relieved of
      he == Wit(post, e, "e")
      tol == Add(HT(pre, e, "e"), HT(post, e, "e"))
  IN
  /\ Rule(i, "C05 perp losses are dealt with last", ~Phase1(pre, e) /\ ~Phase2(pre, e) /\ IsNeg(pnl) /\ e # l)
  /\ Rule(i, "C05 a loss is only ever reduced towards zero", Ge(qt, 0) /\ Le(E.q, 0))
  /\ Rule(i, "C05 settling a loss does not worsen health", Ge(he, Sub(h, tol)))
  /\ Rule(i, "C05 bankruptcy does not move health beyond the liquidation end", Le(he, Add(Max(h, 0), Add(tol, One))))
  /\ Rule(i, "C05 the insurance fund pays, and no more than it has", Eq(Sub(pre.ins, post.ins), paid) /\ Ge(post.ins, 0))
  /\ Rule(i, "C05 what the insurance fund pays arrives", Eq(Bank0(post, InsTok).v, Add(Bank0(pre, InsTok).v, paid)))
  /\ Rule(i, "C05 losses are socialized only once the insurance fund is used up", Eq(m2.lf, m.lf) \/ (IF m.gif = 1 THEN Eq(post.ins, 0) ELSE TRUE))
  /\ Rule(i, "C05 both sides share exactly the loss that remains",
          Eq(m2.lf, M3.lf) /\ Eq(m2.sf, M3.sf) /\ Changed(m, m2) \subseteq {"lf", "sf"})
  /\ (soc /\ Ne(m.oi, 0)) => Rule(i, "C05 what holders bear is what the debtor was relieved of", Within(lost, rest, Add(Mul(m.oi, 2), Add(16, Len(hs)))))
  /\ Rule(i, "C05 the debtor's loss is taken over or socialized", PosSame(F3, E, 0))
  /\ Rule(i, "C05 the liquidator takes over exactly what is paid for", PosSame(R2, G2, 0))
  /\ Rule(i, "C05 losses are paid for in the settle token",
          /\ Eq(TIdx(A2, t), xA)
          /\ Eq(TIdx(Q2, t), IF same /\ some THEN q1.x ELSE xQ)
          /\ LedgerEq(IF same /\ some THEN q1.bk ELSE sb1, Bank0(post, t)))
  /\ (some /\ ~same) => Rule(i, "C05 the liquidator is paid by the insurance fund", Eq(TIdx(Q2, InsTok), q1.x) /\ LedgerEq(q1.bk, Bank0(post, InsTok)))
  /\ Rule(i, "C05 a perp bankruptcy touches nothing else",
          /\ pre.W = post.W /\ pre.BD = post.BD /\ pre.AK = post.AK /\ pre.EQ = post.EQ /\ pre.OO = post.OO /\ Else(pre, post, {e, l})
          /\ \A q \in Perps(pre) \ {p} : pre.P[q + 1] = post.P[q + 1]
          /\ \A u \in Toks(pre) \ {t, InsTok} : pre.B[u + 1] = post.B[u + 1]
          /\ \A a \in {e, l} : LET U == Acc(pre, a) V == Acc(post, a) IN
               /\ \A j \in DOMAIN U.pp : U.pp[j].m \in {p, -1} \/ Same(U.pp[j], V.pp[j])
               /\ \A j \in DOMAIN U.tp : U.tp[j].i \in {t, -1, IF a = l THEN InsTok ELSE -1} \/ Same(U.tp[j], V.tp[j])
               /\ Same(U.oo, V.oo) /\ Same(U.s3, V.s3) /\ Same(U.cs, V.cs))
  /\ LiqorOk(i, L)

C05_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op  pre == L.pre  post == L.post IN
  /\ (L.ok = 1 /\ "subst" \notin DOMAIN op) =>
     /\ (n = "liq_bankruptcy" /\ pre.A # post.A) => C05_Token(i, L)
     /\ (n = "perp_liq_neg" /\ ~Same(Body(Acc(pre, op.a)), Body(Acc(post, op.a)))) => C05_Perp(i, L)
  /\ (L.ok = 1 /\ n = "insurance_withdraw" /\ "subst" \notin DOMAIN op) =>
       Rule(i, "C05 the admin takes out what is asked for, as far as there is, and nothing else",
            LET k == Min(op.n, pre.ins) IN
            /\ Eq(post.ins, Sub(pre.ins, k)) /\ Eq(Wal(post, op.a)[1], Add(Wal(pre, op.a)[1], k))
            /\ pre.A = post.A /\ pre.B = post.B /\ pre.g = post.g
            /\ \A a \in AllAccs(pre) : a # op.a => pre.W[a + 1] = post.W[a + 1])
  \* the insurance fund is touched by nothing else
  /\ (L.ok = 1 /\ n \notin {"init", "batch", "via_proxy", "liq_bankruptcy", "perp_liq_neg", "fund_insurance", "insurance_withdraw"}) =>
       Rule(i, "C05 nothing else uses the insurance fund", Eq(pre.ins, post.ins))
  /\ (L.ok = 1 /\ n \notin {"init", "batch", "via_proxy", "liq_bankruptcy", "token_deregister", "token_register", "token_add_bank"} /\ pre.B # post.B) =>
       Rule(i, "C05 depositors lose nothing but to a bankruptcy",
            \A t \in Toks(pre) \cap Toks(post) : \A b \in Banks(pre, t) \cap Banks(post, t) : Ge(Bank(post, t, b).di, Bank(pre, t, b).di))
=============================================================================
