------------------------------ MODULE BankUnit ------------------------------
(* One bank by itself: what its functions did on random banks, positions and
   arguments, against the ledger, limits, interest and weights specified. *)
EXTENDS C02, C06, C23
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l

Post(c) == TLCEval([k \in DOMAIN c.pre |-> IF k \in DOMAIN c.ch THEN c.ch[k] ELSE c.pre[k]])
Free(p) == Eq(p.u, 0)
Inactive == "a dusted position is reported for removal"
\* the interest a position has earned or paid until it was touched; f64 rounding allowed
Cum(pre, bk, p, p2) ==
  /\ IF IsPos(p.x) THEN /\ Near(p2.cd, Add(p.cd, FxMul(Sub(bk.di, p.pi), p.x)), 1, 1024) /\ Same(p2.cb, p.cb)
                   ELSE /\ Near(p2.cb, Sub(p.cb, FxMul(Sub(bk.bi, p.pi), p.x)), 1, 1024) /\ Same(p2.cd, p.cd)
  /\ Eq(p2.pi, IF IsPos(p2.x) THEN bk.di ELSE bk.bi)
Books(b, e) == Eq(b.id, e.id) /\ Eq(b.ib, e.ib) /\ Eq(b.dust, e.dust) /\ Eq(b.fee, e.fee) /\ Eq(b.di, e.di) /\ Eq(b.bi, e.bi)
LedgerFields == {"di", "bi", "id", "ib", "dust", "fee", "nb", "nbw"}
\* what one call must have done: the specified result R = [bk, x, act]
Did(i, c, R, active) ==
  LET post == Post(c) IN
  /\ Rule(i, "C01 bank: " \o c.f \o " leaves the specified ledger", Books(R.bk, post) /\ DOMAIN c.ch \subseteq LedgerFields)
  /\ Rule(i, "C01 bank: " \o c.f \o " leaves the specified position", Eq(c.p2.x, R.x) /\ Eq(c.p2.u, c.p.u) /\ Same(c.q, c.q2))
  /\ Rule(i, "C01 bank: " \o c.f \o " tells whether the position remains", (c.res.act = 1) = active)
  /\ Rule(i, "C01 bank: interest earned and paid is kept", Cum(c.pre, post, c.p, c.p2))
\* the value a position gained, apart from fees and dust, is what went in
Slack(c) == Add(Mul(TDiv(Max(c.pre.di, c.pre.bi), One), 3), 16)
Fair(i, c, gain, fee) ==
  LET post == Post(c)
      d == Sub(Native(c.p2.x, post), Native(c.p.x, c.pre))
      dust == Sub(post.dust, c.pre.dust) IN
  Rule(i, "C01 bank: " \o c.f \o " credits exactly the amount, to rounding", Within(Add(Add(d, dust), fee), gain, Slack(c)))
\* totals follow the position
Totals(i, c, ps) ==
  LET post == Post(c)
      pos(x) == Max(x, 0)  neg(x) == Max(NegB(x), 0) IN
  Rule(i, "C01 bank: totals move with the positions",
       /\ Eq(Sub(post.id, c.pre.id), SumSeq([k \in DOMAIN ps |-> Sub(pos(ps[k][2].x), pos(ps[k][1].x))]))
       /\ Eq(Sub(post.ib, c.pre.ib), SumSeq([k \in DOMAIN ps |-> Sub(neg(ps[k][2].x), neg(ps[k][1].x))])))
Dep(b, x, n, dust, now) == LET R == BankDeposit(b, x, n, dust, now) IN [bk |-> R.bk, x |-> R.x, act |-> R.act, fee |-> 0, loan |-> 0]
LedgerCall(i, c) ==
  LET b == c.pre  x == c.p.x  n == c.n  now == c.now  free == Free(c.p) IN
  CASE c.f = "deposit" -> LET R == Dep(b, x, n, free, now) IN Did(i, c, R, R.act) /\ Fair(i, c, n, 0)
    [] c.f = "deposit_d" -> LET R == Dep(b, x, n, TRUE, now) IN Did(i, c, R, R.act \/ ~free) /\ Fair(i, c, n, 0)
    [] c.f = "withdraw" -> LET R == BankWithdraw(b, x, n, FALSE, free, now) IN Did(i, c, R, R.act) /\ Fair(i, c, NegB(n), 0)
    [] c.f = "withdraw_d" -> LET R == BankWithdraw(b, x, n, FALSE, TRUE, now) IN Did(i, c, R, R.act \/ ~free) /\ Fair(i, c, NegB(n), 0)
    [] c.f = "withdraw_fee" -> LET R == BankWithdraw(b, x, n, TRUE, free, now) IN
         /\ Did(i, c, R, R.act) /\ Fair(i, c, NegB(n), R.fee)
         /\ Rule(i, "C01 bank: the loan and its fee are reported", Eq(c.res.fee, R.fee) /\ Eq(c.res.loan, R.loan))
    [] c.f = "lof" -> LET fee == FxMul(b.lofr, n)
                          R == BankWithdraw([b EXCEPT !.fee = Add(@, fee)], x, fee, FALSE, free, now) IN
         /\ Did(i, c, R, R.act) /\ Fair(i, c, 0, fee)
         /\ Rule(i, "C01 bank: the loan and its fee are reported", Eq(c.res.fee, fee) /\ Eq(c.res.loan, 0))
    [] c.f = "dust" -> LET nat == Native(x, b)  go == free /\ ~IsNeg(nat) /\ Lt(nat, One)
                           R == BankWithdraw(b, x, 0, FALSE, TRUE, now)
                           post == Post(c) IN
         IF go THEN Did(i, c, R, R.act)
         ELSE Rule(i, "C01 bank: only dust is swept away", DOMAIN c.ch = {}) /\ Rule(i, "C01 bank: only dust is swept away: position", Same(c.p, c.p2) /\ c.res.act = 1)
    [] c.f = "change" -> IF ~IsNeg(n) THEN LET R == Dep(b, x, n, free, now) IN Did(i, c, R, R.act) /\ Fair(i, c, n, 0)
                         ELSE LET R == BankWithdraw(b, x, NegB(n), FALSE, free, now) IN Did(i, c, R, R.act) /\ Fair(i, c, n, 0)
    [] c.f = "change_fee" ->
         LET R == IF ~IsNeg(n) THEN Dep(b, x, n, free, now) ELSE BankWithdraw(b, x, NegB(n), TRUE, free, now) IN
         /\ Did(i, c, R, R.act) /\ Fair(i, c, n, R.fee)
         /\ Rule(i, "C01 bank: the loan and its fee are reported", Eq(c.res.fee, R.fee) /\ Eq(c.res.loan, R.loan))
\* a transfer between two positions of the bank, with all its checks
Xfer(c) ==
  LET b == c.pre
      W == IF Eq(c.n, 0) THEN [bk |-> b, x |-> c.p.x, act |-> TRUE, fee |-> 0, loan |-> 0] ELSE BankWithdraw(b, c.p.x, c.n, TRUE, Free(c.p), c.now)
      D == IF Eq(c.m, 0) THEN [bk |-> W.bk, x |-> c.q.x, act |-> TRUE] ELSE BankDeposit(W.bk, c.q.x, c.m, Free(c.q), c.now)
      code == IF ~Eq(c.n, 0) /\ IsNeg(W.x) /\ b.ro \in {1, 2} THEN 6030
              ELSE IF ~Eq(c.m, 0) /\ IsPos(D.x) /\ b.ro = 1 THEN 6030
              ELSE IF Gt(D.bk.ib, Add(b.ib, 1)) /\ ~NetBorrowsOk(D.bk, c.px) THEN 6027
              ELSE IF Gt(D.bk.id, Add(b.id, 1)) /\ ~DepositLimitOk(D.bk) THEN 6062 ELSE 0
  IN [W |-> W, D |-> D, code |-> code]
XferCall(i, c) ==
  LET X == Xfer(c)  post == Post(c)  b == c.pre IN
  /\ c.ok = 1 =>
     /\ Rule(i, "C01 bank: a transfer leaves the specified ledger", Books(X.D.bk, post) /\ DOMAIN c.ch \subseteq LedgerFields)
     /\ Rule(i, "C01 bank: a transfer leaves the specified positions", Eq(c.p2.x, X.W.x) /\ Eq(c.q2.x, X.D.x))
     /\ Rule(i, "C01 bank: a transfer reports loan, fee and closed positions",
          Eq(c.res.fee, X.W.fee) /\ Eq(c.res.loan, X.W.loan) /\ (c.res.act = 1) = X.W.act /\ (c.res.tact = 1) = X.D.act)
     /\ Rule(i, "C01 bank: interest earned and paid is kept", (Eq(c.n, 0) \/ Cum(b, post, c.p, c.p2)) /\ (Eq(c.m, 0) \/ Cum(b, post, c.q, c.q2)))
     /\ Totals(i, c, <<<<c.p, c.p2>>, <<c.q, c.q2>>>>)
NoPanic(i, c, pid) == Rule(i, pid \o " bank: no arithmetic failure within bounds", c.ok # -1)

C01_Inv == LET c == Trace[l] IN c.k = "ledger" =>
  /\ NoPanic(l, c, "C01")
  /\ (c.ok # -1 /\ c.f # "xfer" /\ IsNeg(c.n)) => Rule(l, "C01 bank: negative amounts are refused", c.f \in {"change", "change_fee", "dust"} \/ c.ok = 0 \/ (c.f = "lof" /\ Eq(FxMul(c.pre.lofr, c.n), 0)))
  /\ (c.ok = 0) => Rule(l, "C01 bank: refused only for a reason", (c.f = "xfer" /\ (IsNeg(c.m) \/ c.code # 2506)) \/ (IsNeg(c.n) /\ c.code = 2506))
  /\ (c.ok = 1 /\ c.f # "xfer") => LedgerCall(l, c) /\ Totals(l, c, <<<<c.p, c.p2>>>>)
  /\ (c.ok \in {0, 1} /\ c.f = "xfer" /\ ~IsNeg(c.n) /\ ~IsNeg(c.m)) => XferCall(l, c)
C07_Inv == LET c == Trace[l] IN
  (c.k = "ledger" /\ c.f = "xfer" /\ c.ok \in {0, 1} /\ ~IsNeg(c.n) /\ ~IsNeg(c.m)) =>
    Rule(l, "C07 bank: a transfer is refused exactly when it would add to a reduce-only side", (c.code = 6030) = (Xfer(c).code = 6030))
Window(c) ==
  LET b == c.pre  x == c.p.x  n == c.n  free == Free(c.p) IN
  CASE c.f \in {"deposit", "deposit_d", "change", "change_fee"} -> BankDeposit(b, x, n, free \/ c.f = "deposit_d", c.now).bk
    [] c.f = "dust" -> b
    [] c.f = "lof" -> BankWithdraw(b, x, FxMul(b.lofr, n), FALSE, free, c.now).bk
    [] OTHER -> BankWithdraw(b, x, n, c.f = "withdraw_fee", free \/ c.f = "withdraw_d", c.now).bk
C06_Inv == LET c == Trace[l]  b == c.pre IN
  /\ (c.k = "ledger" /\ c.ok # -1 /\ ~IsNeg(c.n)) =>
       IF c.f = "xfer" THEN ~IsNeg(c.m) =>
         LET X == Xfer(c) IN
         /\ Rule(l, "C06 bank: a transfer is refused exactly beyond a limit or against a mode", c.code = X.code)
         /\ c.ok = 1 => Rule(l, "C06 bank: the window counts borrows and repayments of a transfer", Eq(Post(c).nb, X.D.bk.nb) /\ Eq(Post(c).nbw, X.D.bk.nbw))
       ELSE c.ok = 1 => LET P == Window(c) IN Rule(l, "C06 bank: the window counts borrows and repayments of " \o c.f, Eq(Post(c).nb, P.nb) /\ Eq(Post(c).nbw, P.nbw))
  /\ c.k = "limits" =>
     /\ NoPanic(l, c, "C06")
     /\ c.ok # -1 =>
        CASE c.f = "remaining_nb" -> Rule(l, "C06 bank: what may still be borrowed in the window",
               Eq(c.res.v, IF IsNeg(b.nb) \/ IsNeg(b.nbl) THEN F64Max ELSE Sub(FxInt(b.nbl), Mul(Max(c.px, BStable(b)), b.nb))))
          [] c.f = "check_nb" -> Rule(l, "C06 bank: the net borrow limit", (c.ok = 1) = NetBorrowsOk(b, c.px) /\ (c.ok = 1 \/ c.code = 6027))
          [] c.f = "remaining_dep" -> Rule(l, "C06 bank: what may still be deposited",
               Eq(c.res.v, IF Eq(b.dl, 0) THEN F64Max ELSE Sub(FxInt(b.dl), Add(FxMul(b.di, Add(b.id, 1)), FxInt(b.pst)))))
          [] c.f = "check_dep" -> Rule(l, "C06 bank: the deposit limit", (c.ok = 1) = DepositLimitOk(b) /\ (c.ok = 1 \/ c.code = 6062))
          [] c.f = "util_all" -> Rule(l, "C06 bank: borrows stay below deposits", (c.ok = 1) = BorrowsLteDeposits(b) /\ (c.ok = 1 \/ c.code = 6026))
          [] c.f = "util_borrow" -> Rule(l, "C06 bank: new borrows stay within the allowed share of deposits", (c.ok = 1) = BorrowUtilOk(b) /\ (c.ok = 1 \/ c.code = 6026))
          [] c.f = "update_nb" -> LET P == NetBorrows(b, c.n, c.now) IN
               Rule(l, "C06 bank: the window's counter", Eq(Post(c).nb, P.nb) /\ Eq(Post(c).nbw, P.nbw) /\ DOMAIN c.ch \subseteq {"nb", "nbw"})
          [] c.f = "potential" -> Rule(l, "C06 bank: potential purchases grow and shrink by the difference",
               Eq(Post(c).pst, Max(0, Add(b.pst, Sub(c.new, c.old)))) /\ DOMAIN c.ch \subseteq {"pst"})
\* the index of a bank after dt seconds
C02_Inv == LET c == Trace[l]  b == c.pre IN c.k = "interest" =>
  /\ NoPanic(l, c, "C02")
  /\ c.ok = 1 =>
     CASE c.f = "index" ->
            LET nd == FxMul(b.di, c.td)  nb == FxMul(b.bi, c.tb)  u == Util(nd, nb)  rate == Curve(b, u)  drate == FxMul(rate, u)
                \* one unit of each rounded factor, and of each index
                tol == Add(Mul(Add(TDiv(Max(b.bi, b.di), One), 1), 16), 16) IN
            /\ Rule(l, "C02 bank: rates by utilization", Within(c.res.rate, rate, 16) /\ Within(c.res.drate, drate, 16))
            /\ Rule(l, "C02 bank: the deposit index accrues the deposit rate", Within(c.res.di, Accrue(b.di, drate, c.dt), tol))
            /\ Rule(l, "C02 bank: the borrow index accrues rate and fee", Within(c.res.bi, Accrue(b.bi, Add(rate, b.lfr), c.dt), tol))
            /\ Rule(l, "C02 bank: the protocol's fee", Near(c.res.fee, FxDiv(FxMul(FxMul(nb, b.lfr), FxInt(c.dt)), FxInt(Year)), 1, 1024))
            /\ Rule(l, "C02 bank: indexes do not fall", Ge(c.res.di, b.di) /\ Ge(c.res.bi, b.bi))
            /\ Rule(l, "C02 bank: a query changes nothing", DOMAIN c.ch = {})
       [] c.f = "rate" ->
            LET v == Curve(b, Clamp(c.u, 0, One)) IN
            /\ Rule(l, "C02 bank: the rate curve", Within(c.res.v, v, 64))
            /\ Rule(l, "C02 bank: rates between the minimum and the maximum",
                    LET k == IF Eq(b.ics, 0) THEN One ELSE b.ics IN Ge(c.res.v, Sub(FxMul(b.zur, k), 1024)) \/ Ge(c.res.v, Sub(FxMul(b.r0, k), 1024)))
       [] c.f = "avg" ->
            LET nd == FxMul(b.di, c.td)  nb == FxMul(b.bi, c.tb)  u == Util(nd, nb)  span == Sub(c.now, b.rlu)
                v == IF Le(span, 0) THEN u ELSE FxDiv(Add(FxMulI(b.au, Sub(b.ilu, b.rlu)), FxMulI(u, Sub(c.now, b.ilu))), FxInt(span)) IN
            Rule(l, "C02 bank: the average utilization is weighted by time", Within(c.res.v, v, 4))
       [] c.f = "scale" ->
            LET a == Clamp(b.au, 0, One)  t == b.itu
                f == IF Eq(a, t) THEN 0 ELSE IF Gt(a, t) THEN FxDiv(Sub(a, t), Sub(One, t)) ELSE FxDiv(Sub(a, t), t)
                v == IF Eq(t, 0) /\ Eq(a, 0) THEN One ELSE Max(One, FxMul(b.ics, Add(One, FxMul(b.adj, f)))) IN
            Rule(l, "C02 bank: the curve scales with the distance from the target", Near(Post(c).ics, v, 2, 1024) /\ DOMAIN c.ch \subseteq {"ics"})
\* the configurations a bank may have
Verified(b) ==
  /\ Ge(b.ocf, 0) /\ Ge(b.u0, 0) /\ Ge(b.u1, b.u0) /\ Ge(One, b.u1) /\ Ge(b.r0, 0) /\ Ge(b.r1, 0) /\ Ge(b.mr, 0) /\ Ge(b.adj, 0)
  /\ Ge(b.lfr, 0) /\ Ge(b.lofr, 0) /\ Ge(b.lf, 0) /\ Ge(b.minv, 0) /\ Le(b.minv, One) /\ Ge(b.nbl, -1) /\ Le(b.ro, 2)
  /\ Ge(b.tt, 0) /\ Ge(b.tm, 0) /\ Ge(b.fls, 0) /\ Ge(b.ics, One) /\ Ge(b.itu, 0) /\ Le(b.itu, One) /\ Ge(b.zur, 0) /\ Ge(b.plf, 0) /\ Ge(b.cfd, 0)
  /\ Ge(b.sp.dg, 0) /\ Ge(b.sp.sg, 0)
C23_Inv == LET c == Trace[l]  b == c.pre IN c.k = "weights" =>
  /\ NoPanic(l, c, "C23")
  /\ c.ok # -1 =>
     CASE c.f = "maint" -> LET w == MaintWeights(b, c.now) IN
            /\ Rule(l, "C23 bank: maintenance weights of the moment", Eq(c.res.a, w[1]) /\ Eq(c.res.l, w[2]))
            /\ (IsPos(b.msd) /\ Gt(b.mse, b.mss)) => Rule(l, "C23 bank: a shift stays between the old and new weights", Between(c.res.a, b.maw, b.msa) /\ Between(c.res.l, b.mlw, b.msl))
       [] c.f = "asset" ->
            /\ Rule(l, "C23 bank: asset weights shrink with deposits", Near(c.res.v, ScaledAssetWeight(b, c.px), 1, 64))
            /\ Rule(l, "C23 bank: the collateral counted stays bounded", Bounded(b, c.px))
       [] c.f = "liab" -> Rule(l, "C23 bank: liability weights grow with borrows", Near(c.res.v, ScaledLiabWeight(b, c.px), 1, 1024))
       [] c.f = "verify" -> Rule(l, "C23 bank: inconsistent configurations are refused, and only those", (c.ok = 1) = (Sane(b) /\ Verified(b)))
=============================================================================
