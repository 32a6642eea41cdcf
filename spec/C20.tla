-------------------------------- MODULE C20 --------------------------------
(* Fees: charged once, at the configured rate, and paid out exactly. *)
EXTENDS Perp, Edits
\* -- the quote owned in a perp market is conserved: traders' quote, pending fills, accrued fees
FillQuote(m, f) ==
  LET v == Mul(Mul(f.px, f.q), m.ql)
      fee == FxMul(FxInt(v), f.mf)
  IN Sub(FxInt(IF f.ts = Ask THEN NegB(v) ELSE v), fee)        \* the maker buys when the taker sells
PerpTotal(s, p) ==
  LET m == Perp(s, p) IN
  SumSeq(<<m.fa>>
    \o [k \in 1..NAcc(s) |-> IF Live(s, k - 1) /\ HasPerp(Acc(s, k - 1), p) THEN PerpQuote(PPos(Acc(s, k - 1), p), m) ELSE 0]
    \o [k \in DOMAIN EQ(s, p).ev |-> IF EQ(s, p).ev[k].y = "fill" THEN FillQuote(m, EQ(s, p).ev[k]) ELSE 0])
\* what may get lost in rounding: event fee rates are floats, indexed amounts round
PerpSlack(L, p) ==
  LET q(s) == SumSeq([k \in DOMAIN EQ(s, p).ev |-> IF EQ(s, p).ev[k].y = "fill" THEN Mul(Mul(EQ(s, p).ev[k].px, EQ(s, p).ev[k].q), Perp(s, p).ql) ELSE 0])
      oi == Perp(L.pre, p).oi
  IN Add(Add(FxInt(1), TDiv(FxInt(Add(q(L.pre), q(L.post))), 5000000)), Mul(oi, 64))
Closes(L, p) == \E a \in AllAccs(L.pre) : Live(L.pre, a) /\ HasPerp(Acc(L.pre, a), p)
                    /\ ~(Live(L.post, a) /\ HasPerp(Acc(L.post, a), p))
Conserves(i, L) ==
  \A p \in Perps(L.pre) \cap Perps(L.post) :
    (L.pre.P[p + 1] # L.post.P[p + 1] \/ L.pre.EQ[p + 1] # L.post.EQ[p + 1] \/ L.pre.A # L.post.A) =>
      LET d == Sub(PerpTotal(L.post, p), PerpTotal(L.pre, p))  tol == PerpSlack(L, p) IN
      IF L.op.op = "perp_liq_neg" THEN Rule(i, "C20 insurance only adds to a market's quote", Ge(Add(d, tol), 0))
      ELSE Rule(i, "C20 fees plus traders' quote changes sum to zero", Within(d, 0, tol))
\* -- trading
PlaceFees(i, L) ==
  LET X == Placing(L)  op == L.op  A == Acc(L.post, op.a) IN
  IF X.abort \/ X.noSlot THEN TRUE ELSE
  /\ Rule(i, "C20 a taker pays the taker fee and the market accrues both fees", Eq(Perp(L.post, op.p).fa, X.m.fa))
  /\ HasPerp(A, op.p) => Rule(i, "C20 the fee leaves the taker's quote",
       LET P == PPos(A, op.p) IN Eq(P.q, X.P.q) /\ Eq(P.oa, X.P.oa) /\ Eq(P.tv, X.P.tv))
  /\ Rule(i, "C20 fees count for buyback, once, in their interval", Eq(A.bc, X.A.bc) /\ Eq(A.bp, X.A.bp) /\ Eq(A.bx, X.A.bx))
  /\ LET q == EQ(L.post, op.p)  n == Len(EQ(L.pre, op.p).ev)  fills == SelectSeq(X.r.evs, LAMBDA e : e.y = "fill") IN
     Rule(i, "C20 fills carry the configured fees, none for self-trades",
       LET got == SelectSeq(SubSeq(q.ev, n + 1, Len(q.ev)), LAMBDA e : e.y = "fill") IN
       Len(got) = Len(fills) /\ \A k \in DOMAIN got :
         /\ Near(got[k].mf, IF fills[k].self THEN 0 ELSE X.m.mf, 200, 4)
         /\ Near(got[k].tf, IF fills[k].self THEN 0 ELSE X.m.tf, 200, 4))
ConsumeFees(i, L) ==
  LET C == Consuming(L) IN
  \A a \in DOMAIN C.acc : (a \in AllAccs(L.post) /\ C.acc[a].live = 1) =>
    LET A == Acc(L.post, a)  E == C.acc[a] IN
    /\ Rule(i, "C20 a maker's fees count for buyback", Eq(A.bc, E.bc) /\ Eq(A.bp, E.bp) /\ Eq(A.bx, E.bx))
    /\ (HasPerp(A, L.op.p) /\ HasPerp(E, L.op.p)) => Rule(i, "C20 a maker pays the maker fee of each fill",
          Eq(PPos(A, L.op.p).q, PPos(E, L.op.p).q))
\* -- paying out
AdminWithdraw(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post
      perp == op.op = "perp_withdraw_fees"
      t == IF perp THEN Perp(pre, op.p).st ELSE op.t
      b == G(op, "b", 0)
      owed == IF perp THEN Sub(FxFloor(Perp(pre, op.p).fs), Perp(pre, op.p).fwd)
              ELSE Sub(FxFloor(Bank(pre, t, b).fee), Bank(pre, t, b).fwd)
      amt == Min(owed, Bank(pre, t, b).v)
      to == op.a
  IN /\ Rule(i, "C20 the admin withdraws the accrued fees not yet withdrawn", Eq(Bank(post, t, b).v, Sub(Bank(pre, t, b).v, amt)))
     /\ Rule(i, "C20 withdrawn fees are recorded",
          IF perp THEN Eq(Perp(post, op.p).fwd, Add(Perp(pre, op.p).fwd, amt)) /\ Changed(Perp(pre, op.p), Perp(post, op.p)) \subseteq {"fwd"}
                       /\ Changed(Bank(pre, t, b), Bank(post, t, b)) \subseteq {"v"}
          ELSE Eq(Bank(post, t, b).fwd, Add(Bank(pre, t, b).fwd, amt)) /\ Changed(Bank(pre, t, b), Bank(post, t, b)) \subseteq {"fwd", "v"})
     /\ Rule(i, "C20 withdrawn fees arrive", Eq(Wal(post, to)[t + 1], Add(Wal(pre, to)[t + 1], amt)))
     /\ Rule(i, "C20 withdrawing fees touches no account", pre.A = post.A)
SettleFees(i, L) ==
  LET m == Perp(L.pre, L.op.p)  m2 == Perp(L.post, L.op.p) IN
  Rule(i, "C20 settled fees come out of the accrued ones", Eq(Add(m2.fa, m2.fs), Add(m.fa, m.fs)) /\ Ge(m2.fs, m.fs) /\ (Ge(m2.fa, 0) \/ Ge(m2.fa, m.fa)))
\* -- buying back fees with the fee token
ReduceAccrued(A, n) ==
  IF Gt(n, A.bp) THEN [A EXCEPT !.bc = Sub(@, Sub(n, A.bp)), !.bp = 0] ELSE [A EXCEPT !.bp = Sub(@, n)]
Buyback(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  g == Grp(pre)  mt == op.m  ft == 0
      A == ExpireBuyback(Acc(pre, op.a), pre.now, g.bbx)
      D == Acc(pre, op.dao)
      mb == Bank0(pre, mt)  fb == Bank0(pre, ft)
      mprice == FxMul(Min(Ora(pre, mt).px, BStable(mb)), g.bon)
      fprice == Max(Ora(pre, ft).px, BStable(fb))
      daoFees == Native(TIdx(D, ft), fb)
      cap == Min(FxInt(Min(op.n, Min(Add(A.bc, A.bp), U64Max))), FxMul(daoFees, fprice))
      mngo == Native(TIdx(A, mt), mb)
      none == ~IsPos(cap) \/ ~IsPos(mngo)
      pay == Min(FxDiv(cap, mprice), mngo)
      usd == Min(cap, FxMul(pay, mprice))
      fees == FxDiv(usd, fprice)
      wm == BankWithdraw(mb, TIdx(A, mt), pay, FALSE, ~(HasTok(A, mt) /\ TPos(A, mt).u > 0), pre.now)
      dm == BankDeposit(wm.bk, TIdx(D, mt), pay, TRUE, pre.now)
      wf == BankWithdraw(fb, TIdx(D, ft), fees, FALSE, TRUE, pre.now)
      df == BankDeposit(wf.bk, TIdx(A, ft), fees, ~(HasTok(A, ft) /\ TPos(A, ft).u > 0), pre.now)
      E == IF none THEN A ELSE ReduceAccrued(A, FxCeil(usd))
      A2 == Acc(post, op.a)  D2 == Acc(post, op.dao)
  IN /\ Rule(i, "C20 buyback is not from oneself, and the fee receiver keeps no debts", op.a # op.dao /\ (none \/ \A k \in DOMAIN D2.tp : D2.tp[k].i = -1 \/ Ge(D2.tp[k].x, 0)))
     /\ Rule(i, "C20 buyback uses up exactly the fees bought back", Eq(A2.bc, E.bc) /\ Eq(A2.bp, E.bp) /\ Eq(A2.bx, E.bx))
     /\ IF none THEN Rule(i, "C20 nothing to buy back moves nothing", pre.B = post.B)
        ELSE /\ Rule(i, "C20 buyback pays fee tokens at the discounted price", Eq(TIdx(A2, mt), wm.x) /\ Eq(TIdx(D2, mt), dm.x) /\ LedgerEq(Bank0(post, mt), dm.bk))
             /\ Rule(i, "C20 buyback returns fees worth that", Eq(TIdx(A2, ft), df.x) /\ Eq(TIdx(D2, ft), wf.x) /\ LedgerEq(Bank0(post, ft), df.bk))
     /\ Rule(i, "C20 buyback touches those two accounts and tokens only",
          /\ \A a \in AllAccs(pre) : a \in {op.a, op.dao} \/ pre.A[a + 1] = post.A[a + 1]
          /\ \A t \in Toks(pre) : t \in {mt, ft} \/ pre.B[t + 1] = post.B[t + 1])
\* -- the periodic collateral fee
Collateral(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  a == op.a  A == Acc(pre, a)  A2 == Acc(post, a)
      iv == Grp(pre).cfi
      due == Ne(iv, 0) /\ Ne(A.lcf, 0) /\ Ge(pre.now, Add(A.lcf, iv))
      secs == Min(Sub(pre.now, A.lcf), Mul(2, iv))
      I == HInfoStd(pre, a, "m")
      oo(t, F(_, _)) == SumSeq([k \in DOMAIN I.spots |-> LET o == OO(pre, a, I.spots[k].m) IN
                          Add(IF I.spots[k].bi = t THEN F(o, 0) ELSE 0, IF I.spots[k].qi = t THEN F(o, 1) ELSE 0)])
      res(o, side) == FxInt(IF side = 0 THEN ReservedBase(o) ELSE ReservedQuote(o))
      bal == TLCEval([t \in I.ts |-> Add(EffBal(I, t, FALSE), oo(t, res))])
      ts == [k \in 1..Cardinality(I.ts) |-> CHOOSE t \in I.ts : Cardinality({x \in I.ts : x < t}) = k - 1]
      perpL(k) == LET P == PPos(A, I.perps[k].p)  m == Perp(pre, I.perps[k].p)
                      qp == I.toks[m.st].ora
                      q == FxMul(PerpQuote(P, m), qp)
                      b == FxMul(FxMul(FxInt(Mul(Add(P.b, P.tb), m.bl)), PPrice(pre, I.perps[k].p)), qp)
                  IN Add(Max(NegB(q), 0), Max(NegB(b), 0))
      liabs == SumSeq([k \in DOMAIN ts |-> Max(NegB(FxMul(I.toks[ts[k]].bal, I.toks[ts[k]].ora)), 0)] \o [k \in DOMAIN I.perps |-> perpL(k)])
      h == TLCEval([t \in I.ts |-> TokContrib(I.toks[t], bal[t])])
      pos == SumSeq([k \in DOMAIN ts |-> Max(h[ts[k]], 0)])
      neg == SumSeq([k \in DOMAIN ts |-> Max(NegB(h[ts[k]]), 0)])
      low == Lt(liabs, FxInt(100000000))
      charge == due /\ ~low /\ IsPos(pos) /\ IsPos(neg)
      \* near the threshold the recomputation cannot tell
      close == due /\ Within(liabs, FxInt(100000000), Add(HTol(liabs), One))
      scale == FxMul(Min(FxDiv(neg, pos), One), FxMul(FxInt(secs), "3257812230"))
      feeOf(t) == LET bk == Bank0(pre, t) IN
                  IF ~IsPos(bk.cfd) \/ Eq(bk.maw, 0) \/ ~IsPos(bal[t]) THEN 0 ELSE FxMul(FxMul(bal[t], scale), bk.cfd)
      usd == SumSeq([k \in DOMAIN ts |-> FxMul(feeOf(ts[k]), I.toks[ts[k]].ora)])
      due_t(t) == IF Ge(h[t], 0) THEN 0 ELSE FxDiv(FxMul(FxDiv(NegB(h[t]), neg), usd), I.toks[t].ora)
      d(t) == Sub(TNat(post, a, t), TNat(pre, a, t))
      tolT(x) == Add(TDiv(Abs(x), 10000000), Add("2814749767", 0))
  IN
  /\ Rule(i, "C20 collateral fees: at most once per interval", Eq(A2.lcf, IF Eq(iv, 0) THEN 0 ELSE IF Eq(A.lcf, 0) \/ due THEN pre.now ELSE A.lcf))
  /\ ~due => Rule(i, "C20 no collateral fee before it is due", pre.B = post.B /\ Same([A EXCEPT !.lcf = A2.lcf], A2))
  /\ (due /\ ~close) =>
       IF ~charge THEN Rule(i, "C20 no collateral fee without liabilities and collateral", pre.B = post.B)
       ELSE /\ Rule(i, "C20 the collateral fee is the configured share of used collateral",
                 \A t \in I.ts : Within(NegB(d(t)), due_t(t), tolT(due_t(t))))
            /\ Rule(i, "C20 the collateral fee is booked for the protocol",
                 \A t \in I.ts : Within(Sub(Bank0(post, t).fee, Bank0(pre, t).fee), due_t(t), tolT(due_t(t))))
            /\ Rule(i, "C20 collateral fees are counted where they arise",
                 \A t \in I.ts : Within(Sub(Bank0(post, t).cfee, Bank0(pre, t).cfee), feeOf(t), tolT(feeOf(t))))
  /\ Rule(i, "C20 collateral fees concern one account", \A b \in AllAccs(pre) : b = a \/ pre.A[b + 1] = post.A[b + 1])
\* -- who else may touch any of this
FeeAcc == {"bc", "bp", "bx"}
C20_Rules(i) ==
  LET L == Trace[i]  op == L.op  n == op.op IN
  (L.ok = 1 /\ n # "init" /\ ~(n \in {"perp_place", "perp_peg"} /\ PastExpiry(op, L.pre.now))) =>
  /\ n # "batch" => Conserves(i, L)
  /\ n \in {"perp_place", "perp_peg"} => PlaceFees(i, L)
  /\ n = "perp_consume" => ConsumeFees(i, L)
  /\ n \in {"withdraw_fees", "perp_withdraw_fees"} => AdminWithdraw(i, L)
  /\ n = "perp_settle_fees" => SettleFees(i, L)
  /\ n = "buyback" => Buyback(i, L)
  /\ n = "collateral_fees" => Collateral(i, L)
  /\ n \notin {"perp_place", "perp_peg", "perp_consume", "buyback", "s3_settle", "batch", "via_proxy"} =>
       \A a \in AllAccs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ Live(L.pre, a) /\ Live(L.post, a)) =>
         Rule(i, "C20 only trading and buyback change the buyback allowance",
              Changed(Acc(L.pre, a), Acc(L.post, a)) \cap FeeAcc = {})
  /\ n \notin {"perp_place", "perp_peg", "perp_settle_fees", "perp_liq_base", "perp_withdraw_fees", "batch", "via_proxy", "perp_edit"} =>
       \A p \in Perps(L.pre) \cap Perps(L.post) : L.pre.P[p + 1] # L.post.P[p + 1] =>
         Rule(i, "C20 only trading and settling change accrued fees", Changed(Perp(L.pre, p), Perp(L.post, p)) \cap {"fa", "fs", "fwd"} = {})
  /\ n # "batch" => \A p \in Perps(L.pre) \cap Perps(L.post) : (L.pre.P[p + 1] # L.post.P[p + 1] /\ n # "perp_edit") =>
       Rule(i, "C20 fee rates change only by configuration", Changed(Perp(L.pre, p), Perp(L.post, p)) \cap {"mf", "tf", "pen", "plf"} = {})
C20_Line(i) ==
  LET L == Trace[i] IN
  /\ C20_Rules(i)
  /\ TokEdits(i, L, "C20", "fee rates", {"lofr", "lfr", "tt", "tm", "fls", "cfd", "plf"}, {}) /\ TokFixed(i, L, "C20", "fee rates", {"lofr", "lfr", "tt", "tm", "fls", "cfd", "plf"})
  /\ PerpEdits(i, L, "C20", "fee rates", {"mf", "tf", "pen", "plf"}) /\ PerpFixed(i, L, "C20", "fee rates", {"mf", "tf", "pen", "plf"})
=============================================================================
