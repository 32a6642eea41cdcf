-------------------------------- MODULE C01 --------------------------------
(* Token conservation: positions, bank totals, fees and vaults reconcile. *)
EXTENDS Bank

\* -- state invariants -------------------------------------------------------
SumPos(s, t) == SumSeq([k \in 1..NAcc(s) |->
   IF Live(s, k - 1) THEN Max(TIdx(Acc(s, k - 1), t), 0) ELSE 0])
SumNeg(s, t) == SumSeq([k \in 1..NAcc(s) |->
   IF Live(s, k - 1) THEN Min(TIdx(Acc(s, k - 1), t), 0) ELSE 0])
BankSum(s, t, F(_)) == SumSeq([k \in 1..NBank(s, t) |-> IF Bank(s, t, k - 1).live = 1 THEN F(Bank(s, t, k - 1)) ELSE 0])
Deposits(s, t) == BankSum(s, t, LAMBDA b : b.id)
Borrows(s, t) == BankSum(s, t, LAMBDA b : b.ib)
TokLive(s, t) == Tok(s, t).live = 1
\* what users and the protocol own of token t, and what is there to back it (fixed point)
Claims(s, t) ==
  SumSeq([k \in 1..NAcc(s) |-> IF Live(s, k - 1) THEN TNat(s, k - 1, t) ELSE 0]
         \o [k \in 1..NBank(s, t) |-> LET b == Bank(s, t, k - 1) IN
                IF b.live = 1 THEN Add(b.dust, Sub(b.fee, FxInt(b.fwd))) ELSE 0]
         \o [p \in 1..NPerp(s) |-> LET m == Perp(s, p - 1) IN
                IF m.live = 1 /\ m.st = t THEN Sub(m.fs, FxInt(m.fwd)) ELSE 0])
Backing(s, t) == FxInt(BankSum(s, t, LAMBDA b : Add(b.v, b.fla)))
\* one unit in the last place of an indexed amount, in native units, a few times over
Slack(s, t) == Mul(Add(TDiv(Add(Bank0(s, t).di, Bank0(s, t).bi), One), 2), 24)

NoLedger == {"init", "world"}
\* the total moves only by interest; per-lot interest is C02's subject
Interest == {"update_index"}
Socializes == {"liq_bankruptcy"}
Edits == {"token_register", "token_deregister", "fund_insurance"}

Conserved(L, t) ==
  LET pre == L.pre post == L.post
      d == Sub(Sub(Claims(post, t), Claims(pre, t)), Sub(Backing(post, t), Backing(pre, t)))
      \* socializing loss divides it over the deposits: one ulp of the index per deposit
      slack == IF L.op.op \in Socializes THEN Add(Slack(pre, t), TDiv(Deposits(pre, t), One)) ELSE Slack(pre, t)
  IN Within(d, 0, Mul(slack, NAcc(post)))

Touches(L, t) == \/ L.pre.B[t + 1] # L.post.B[t + 1] \/ L.pre.P # L.post.P
                 \/ L.pre.A # L.post.A

\* -- operations -------------------------------------------------------------
InUse(A, t) == HasTok(A, t) /\ TPos(A, t).u > 0
DepositAmount(L) ==
  LET op == L.op  bk == Bank(L.pre, op.t, G(op, "b", 0))
      nat == Native(TIdx(Acc(L.pre, op.a), op.t), bk)
  IN IF G(op, "ro", 0) # 0 \/ bk.ro = 1 THEN Min(FxCeil(Abs(Min(nat, 0))), op.n) ELSE op.n
DepositOk(L, payer) ==
  LET op == L.op  t == op.t  b == G(op, "b", 0)
      A == Acc(L.pre, op.a)  A2 == Acc(L.post, op.a)
      amt == DepositAmount(L)
      r == BankDeposit(Bank(L.pre, t, b), TIdx(A, t), FxInt(amt), ~InUse(A, t), L.pre.now)
  IN /\ Eq(TIdx(A2, t), r.x)
     /\ LedgerEq(Bank(L.post, t, b), r.bk)
     /\ Eq(Bank(L.post, t, b).v, Add(Bank(L.pre, t, b).v, amt))
     /\ Eq(Wal(L.post, payer)[t + 1], Sub(Wal(L.pre, payer)[t + 1], amt))
WithdrawAmount(L) ==
  LET op == L.op  bk == Bank(L.pre, op.t, G(op, "b", 0))
      nat == Native(TIdx(Acc(L.pre, op.a), op.t), bk)
  IN IF Eq(op.n, U64Max) /\ G(op, "borrow", 0) = 0 THEN FxFloor(Max(nat, 0)) ELSE op.n
WithdrawOk(L) ==
  LET op == L.op  t == op.t  b == G(op, "b", 0)
      A == Acc(L.pre, op.a)  A2 == Acc(L.post, op.a)
      amt == WithdrawAmount(L)
      nop == Eq(op.n, U64Max) /\ G(op, "borrow", 0) = 0 /\ IsNeg(Native(TIdx(A, t), Bank(L.pre, t, b)))
      r == BankWithdraw(Bank(L.pre, t, b), TIdx(A, t), FxInt(amt), TRUE, ~InUse(A, t), L.pre.now)
  IN IF nop THEN Eq(TIdx(A2, t), TIdx(A, t)) /\ L.pre.B = L.post.B /\ L.pre.W = L.post.W
     ELSE /\ Eq(TIdx(A2, t), r.x)
          /\ LedgerEq(Bank(L.post, t, b), r.bk)
          /\ Eq(Bank(L.post, t, b).v, Sub(Bank(L.pre, t, b).v, amt))
          /\ G(op, "to", "") # "" \/ Eq(Wal(L.post, op.a)[t + 1], Add(Wal(L.pre, op.a)[t + 1], amt))

\* accounts an operation may change
Actors(op) ==
  {op[k] : k \in DOMAIN op \cap {"a", "l", "b2", "dao", "from", "to"}}
  \cup (IF op.op = "perp_settle_pnl" THEN {op.a, op.b, op.s} ELSE IF op.op = "perp_force_close" THEN {op.a, op.b} ELSE {})
Free == {"batch", "perp_place", "perp_peg", "perp_consume", "perp_cancel_all", "init", "world"}

\* the running figure of what was put in less what was taken out, in quote at the oracle's current price whatever its age
NetDeposits(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post IN
  /\ op.op \in {"deposit", "deposit_existing", "withdraw", "force_withdraw"} =>
       LET b == G(op, "b", 0)
           n == Sub(Bank(post, op.t, b).v, Bank(pre, op.t, b).v)
           usd == FxFloor(FxMul(FxInt(Abs(n)), Ora(pre, op.t).px)) IN
       Rule(i, "C01 net deposits count what was put in and taken out", Eq(Acc(post, op.a).nd, IF IsNeg(n) THEN Sub(Acc(pre, op.a).nd, usd) ELSE Add(Acc(pre, op.a).nd, usd)))
  /\ (op.op \notin {"deposit", "deposit_existing", "withdraw", "force_withdraw", "batch", "via_proxy", "init"} /\ pre.A # post.A) =>
       Rule(i, "C01 nothing else counts as put in or taken out",
            \A a \in Accs(pre) \cap Accs(post) : (pre.A[a + 1] # post.A[a + 1]) => Eq(Acc(pre, a).nd, Acc(post, a).nd))
C01_Line(i) ==
  LET L == Trace[i] IN
  L.ok = 1 =>
  /\ \A t \in Toks(L.post) : (TokLive(L.post, t) /\ Touches(L, t)) =>
       /\ Rule(i, "C01 deposits equal the sum of user balances", Eq(SumPos(L.post, t), Deposits(L.post, t)))
       /\ Rule(i, "C01 borrows equal the sum of user debts", Eq(NegB(SumNeg(L.post, t)), Borrows(L.post, t)))
       /\ (TokLive(L.pre, t) /\ L.op.op \notin NoLedger \cup Interest \cup Edits) =>
            Rule(i, "C01 claims move with the vault", Conserved(L, t))
       /\ (L.sub = 0 /\ L.op.op \notin NoLedger) =>
            Rule(i, "C01 no flash loan outstanding after a transaction",
                 \A b \in 1..NBank(L.post, t) : Eq(Bank(L.post, t, b - 1).fla, 0))
  /\ "subst" \notin DOMAIN L.op => NetDeposits(i, L)
  /\ L.op.op = "deposit" => Rule(i, "C01 deposit books its amount exactly", DepositOk(L, L.op.a))
  /\ L.op.op = "deposit_existing" => Rule(i, "C01 deposit_into_existing books its amount exactly", DepositOk(L, G(L.op, "from", L.op.a)))
  /\ L.op.op = "withdraw" => Rule(i, "C01 withdraw books its amount and loan fee exactly", WithdrawOk(L))
  /\ L.op.op \notin Free =>
       Rule(i, "C01 uninvolved accounts keep their balances and wallets",
            \A a \in AllAccs(L.pre) : (a \notin Actors(L.op)) => L.pre.A[a + 1] = L.post.A[a + 1] /\ L.pre.W[a + 1] = L.post.W[a + 1])
=============================================================================
