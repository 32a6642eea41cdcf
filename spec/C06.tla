-------------------------------- MODULE C06 --------------------------------
(* Limits on borrows, net borrows per window, and deposits. *)
EXTENDS Fees, Edits
NewBorrow(i, what, bk, price) ==
  /\ Rule(i, "C06 " \o what \o ": new borrows stay within the allowed share of deposits", BorrowUtilOk(bk))
  /\ Rule(i, "C06 " \o what \o ": new borrows stay within the window's net borrow limit", NetBorrowsOk(bk, price))
NoNewBorrow(i, what, bk) == Rule(i, "C06 " \o what \o ": borrows stay below deposits", BorrowsLteDeposits(bk))
MoreDeposits(i, what, bk) == Rule(i, "C06 " \o what \o ": deposits and potential purchases stay within the deposit limit", DepositLimitOk(bk))
Amount(L) ==
  LET op == L.op  nat == Native(TIdx(Acc(L.pre, op.a), op.t), Bank(L.pre, op.t, G(op, "b", 0))) IN
  IF op.op = "withdraw" THEN (IF Eq(op.n, U64Max) /\ G(op, "borrow", 0) = 0 THEN FxFloor(Max(nat, 0)) ELSE op.n)
  ELSE IF G(op, "ro", 0) # 0 \/ Bank(L.pre, op.t, G(op, "b", 0)).ro = 1 THEN Min(FxCeil(Abs(Min(nat, 0))), op.n) ELSE op.n
WithdrawNop(L) == Eq(L.op.n, U64Max) /\ G(L.op, "borrow", 0) = 0 /\ IsNeg(Native(TIdx(Acc(L.pre, L.op.a), L.op.t), Bank(L.pre, L.op.t, G(L.op, "b", 0))))
\* the bank as it will be, when nothing stands in the way
Predict(L) ==
  LET op == L.op  A == Acc(L.pre, op.a)  bk == Bank(L.pre, op.t, G(op, "b", 0)) IN
  IF op.op = "withdraw" THEN BankWithdraw(bk, TIdx(A, op.t), FxInt(Amount(L)), TRUE, ~InUseTok(A, op.t), L.pre.now)
  ELSE BankDeposit(bk, TIdx(A, op.t), FxInt(Amount(L)), ~InUseTok(A, op.t), L.pre.now)
Borrows6(L) == Gt(FxInt(Amount(L)), Native(TIdx(Acc(L.pre, L.op.a), L.op.t), Bank(L.pre, L.op.t, G(L.op, "b", 0))))
Deps == {"deposit", "deposit_existing"}
C06_Ok(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  n == op.op IN
  CASE n = "withdraw" /\ ~WithdrawNop(L) ->
         LET c == Bank(post, op.t, G(op, "b", 0))  P == Predict(L).bk IN
         /\ IF Borrows6(L) THEN NewBorrow(i, n, c, Ora(pre, op.t).px) ELSE NoNewBorrow(i, n, c)
         /\ Borrows6(L) => Rule(i, "C06 withdraw: borrowing needs a good price", PrimaryOk(pre, op.t))
         /\ Rule(i, "C06 the window's counter follows borrows", Eq(c.nb, P.nb) /\ Eq(c.nbw, P.nbw))
    [] n \in Deps ->
         LET c == Bank(post, op.t, G(op, "b", 0))  P == Predict(L).bk IN
         /\ IsPos(TIdx(Acc(post, op.a), op.t)) => MoreDeposits(i, "deposit", c)
         /\ Rule(i, "C06 the window's counter follows repayments", Eq(c.nb, P.nb) /\ Eq(c.nbw, P.nbw))
    [] n = "flash_end" -> \A t \in {op.loans[k].t : k \in DOMAIN op.loans} :
         LET X == FlashBook(L, t)  c == Bank0(post, t) IN
         /\ IF IsNeg(X.amt) /\ IsNeg(X.after) THEN NewBorrow(i, n, c, TPrice(pre, t)) ELSE NoNewBorrow(i, n, c)
         /\ (IsPos(X.amt) /\ IsPos(X.after)) => MoreDeposits(i, n, c)
    [] n = "s3_place" ->
         LET S == Spot(pre, op.s)
             pt == IF op.side = 0 THEN S.qi ELSE S.bi   rt == IF op.side = 0 THEN S.bi ELSE S.qi
             pb == Bank(pre, pt, G(op, "b", 0))  pb2 == Bank(post, pt, G(op, "b", 0))
             sent == Sub(pb.v, pb2.v) IN
         /\ IF Gt(FxInt(sent), Native(TIdx(Acc(pre, op.a), pt), pb))
            THEN NewBorrow(i, n, pb2, IF PrimaryOk(pre, pt) THEN Ora(pre, pt).px ELSE 0) /\ MoreDeposits(i, n \o " (payer)", pb2)
            ELSE NoNewBorrow(i, n, pb2)
         /\ MoreDeposits(i, n \o " (receiver)", Bank0(post, rt))
    [] n \in {"tcs_trigger", "tcs_start"} -> \A t \in Toks(pre) :
         LET b == Bank0(pre, t)  c == Bank0(post, t) IN pre.B[t + 1] # post.B[t + 1] =>
         /\ Gt(c.ib, Add(b.ib, 1)) => Rule(i, "C06 " \o n \o ": new borrows stay within the window's net borrow limit", NetBorrowsOk(c, TPrice(pre, t)))
         /\ Gt(c.id, Add(b.id, 1)) => MoreDeposits(i, n, c)
    [] n = "force_withdraw" -> NoNewBorrow(i, n, Bank(post, op.t, G(op, "b", 0)))
    [] OTHER -> TRUE
\* limits stop only what exceeds them
C06_Fail(i, L) ==
  LET op == L.op  pre == L.pre  n == op.op IN
  (n \in Deps \cup {"withdraw"} /\ Live(pre, op.a) /\ L.code \in {6026, 6027, 6062}) =>
    LET P == Predict(L).bk IN
    IF n = "withdraw" THEN
      /\ Rule(i, "C06 refused only beyond the utilization limit", L.code = 6026 => IF Borrows6(L) THEN ~BorrowUtilOk(P) ELSE ~BorrowsLteDeposits(P))
      /\ Rule(i, "C06 refused only beyond the net borrow limit", L.code = 6027 => Borrows6(L) /\ ~NetBorrowsOk(P, Ora(pre, op.t).px))
      /\ Rule(i, "C06 withdrawing never exceeds a deposit limit", L.code # 6062)
    ELSE
      /\ Rule(i, "C06 refused only beyond the deposit limit", L.code = 6062 => ~DepositLimitOk(P) /\ ~IsNeg(Predict(L).x))
      /\ Rule(i, "C06 depositing is never refused by borrow limits", L.code = 6062)
WindowOk(b, c, now) ==
  \/ Eq(b.nbw, c.nbw)
  \/ Ge(now, Add(b.nbw, b.nbz)) /\ Eq(c.nbw, Mul(FDiv(now, b.nbz), b.nbz)) /\ Eq(b.nbz, c.nbz)
\* inside a window the counter grows when debts do and never forgets
Edits6 == {"token_edit", "token_register", "token_deregister", "init", "world", "batch"}
C06_Rules(i) ==
  LET L == Trace[i] IN
  /\ (L.ok = 1 /\ L.op.op \notin {"batch", "init"}) => C06_Ok(i, L)
  /\ (L.ok = 0 /\ L.op.op \notin {"batch", "init"}) => C06_Fail(i, L)
  /\ (L.ok = 1 /\ L.op.op \notin Edits6 /\ L.pre.B # L.post.B) =>
       \A t \in Toks(L.pre) : \A k \in BothBanks(L, t) : L.pre.B[t + 1][k + 1] # L.post.B[t + 1][k + 1] =>
         LET b == Bank(L.pre, t, k)  c == Bank(L.post, t, k) IN
         /\ Rule(i, "C06 a window restarts exactly at its boundary", WindowOk(b, c, L.pre.now))
         /\ (Ge(L.pre.now, Add(b.nbw, b.nbz)) /\ Gt(c.ib, b.ib) /\ L.op.op # "update_index") =>
               Rule(i, "C06 borrows of a new window are counted in it", Eq(c.nbw, Mul(FDiv(L.pre.now, b.nbz), b.nbz)))
         /\ Rule(i, "C06 limits change only by edits", Eq(b.nbl, c.nbl) /\ Eq(b.nbz, c.nbz) /\ Eq(b.dl, c.dl) /\ Eq(b.minv, c.minv))
C06_Line(i) ==
  LET L == Trace[i] IN
  /\ C06_Rules(i)
  /\ TokEdits(i, L, "C06", "borrow and deposit limits", {"nbl", "nbz", "minv", "dl"}, {}) /\ TokFixed(i, L, "C06", "borrow and deposit limits", {"nbl", "nbz", "minv", "dl"})
=============================================================================
