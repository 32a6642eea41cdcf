-------------------------------- MODULE C15 --------------------------------
(* Who may act, and which accounts belong together. *)
EXTENDS C03, Edits
\* ---------------------------------------------------------------- signers
MayAct(s, a, w) == LET A == Acc(s, a) IN A.own = w \/ A.del = w \/ (A.td = w /\ Le(s.now, A.tdx))
ActOps == {"perp_place", "perp_peg", "perp_cancel", "perp_cancel_cid", "perp_cancel_all", "perp_cancel_side", "perp_deactivate",
           "s3_create", "s3_place", "s3_cancel", "s3_cancel_cid", "s3_cancel_all", "s3_settle",
           "flash_begin", "flash_swap_begin", "flash_end", "buyback", "tcs_create", "tcs_cancel", "deposit", "withdraw"}
LiqOps == {"liq_token", "liq_bankruptcy", "force_close_borrows", "perp_liq_base", "perp_liq_neg", "tcs_start", "tcs_trigger"}
OwnerOps == {"account_edit", "seq_check", "account_close", "account_expand"}
AdminOps == {"group_edit", "withdraw_fees", "perp_withdraw_fees", "oracle_set", "account_freeze", "insurance_withdraw", "token_deregister", "perp_close", "s3_dereg",
             "perp_create", "token_register", "token_add_bank"}
ListOps == {"s3_register", "token_register_trustless"}
SecOps == {"token_edit", "perp_edit", "s3_edit", "ix_gate_set"}
Actor0(op) == IF op.op \in LiqOps THEN op.l ELSE IF op.op = "perp_settle_pnl" THEN op.s ELSE op.a
Signs(n) == n \in ActOps \cup LiqOps \cup OwnerOps \cup {"perp_settle_pnl", "s3_close"}
\* what the security admin alone may set: only what makes the group more careful
Flags == {"reset_stable_price", "reset_net_borrow_limit", "maint_weight_shift_abort", "set_fallback_oracle"}
Params(op) == {k \in DOMAIN op : k \notin {"op", "by", "t", "p", "s", "subst", "kept"}}
SecMay(L) ==
  LET op == L.op IN
  CASE op.op = "token_edit" ->
         \A k \in Params(op) :
           \/ k = "maint_weight_shift_abort"
           \/ k \in Flags /\ Bit(op[k]) = 0
           \/ k \in {"init_asset_weight", "platform_liquidation_fee", "collateral_fee_per_day"} /\ Eq(op[k].f32, 0)
           \/ k = "reduce_only" /\ op.reduce_only # 0 /\ ~(op.reduce_only = 2 /\ \E b \in Banks(L.pre, op.t) : Bank(L.pre, op.t, b).ro = 1)
    [] op.op = "perp_edit" ->
         \A k \in Params(op) :
           \/ k \in Flags /\ Bit(op[k]) = 0
           \/ k = "init_overall_asset_weight" /\ Eq(op[k].f32, 0)
           \/ k = "reduce_only" /\ Bit(op[k]) = 1
    [] op.op = "s3_edit" -> \A k \in Params(op) : k = "reduce_only" /\ Bit(op[k]) = 1
    [] OTHER -> TRUE
Permitted(L) ==
  LET op == L.op  pre == L.pre  n == op.op  g == Grp(pre) IN
  IF n \in AdminOps \/ n \in SecOps THEN
    LET w == G(op, "by", "admin") IN
    w = g.adm \/ (n \in SecOps /\ w = g.sec /\ SecMay(L) /\ (n = "ix_gate_set" => Range(g.gate) \subseteq Range(Grp(L.post).gate)))
  ELSE IF n \in ListOps THEN G(op, "by", "admin") \in {g.adm, g.fast}
  ELSE IF Signs(n) THEN
    LET a == Actor0(op)  w == G(op, "by", Acc(pre, a).own) IN
    IF n \in OwnerOps THEN w = Acc(pre, a).own
    ELSE MayAct(pre, a, w) \/ (n = "s3_close" /\ Spot(pre, op.s).fc = 1)
  ELSE TRUE
Delegated(s, a, w) == Acc(s, a).own # w
\* ------------------------------------------------- accounts belonging together
\* number of positions with a fixed meaning
NFix(op) ==
  CASE op.op \in {"withdraw_fees", "perp_cancel", "perp_cancel_cid", "perp_cancel_all", "perp_cancel_side", "perp_settle_fees", "token_deregister", "s3_dereg"} -> 6
    [] op.op = "perp_withdraw_fees" -> 7
    [] op.op \in {"group_edit", "ix_gate_set", "health_check", "collateral_fees", "compute"} -> 2
    [] op.op \in {"token_edit", "account_create", "account_expand", "account_close", "tcs_create", "tcs_cancel", "perp_liq_cancel", "perp_funding", "perp_force_close", "insurance_withdraw"} -> 5
    [] op.op \in {"update_index", "account_migrate", "liq_token", "force_close_borrows", "perp_edit", "perp_deactivate", "tcs_start", "tcs_trigger", "flash_begin"} -> 4
    [] op.op \in {"account_edit", "account_freeze", "seq_check", "s3_edit", "oracle_set", "perp_consume", "region_begin", "flash_end"} -> 3
    [] op.op \in {"buyback", "deposit_existing", "withdraw", "s3_close", "liq_bankruptcy", "force_withdraw", "perp_place", "perp_peg", "perp_close", "flash_swap_begin"} -> 8
    [] op.op \in {"deposit", "perp_settle_pnl", "perp_liq_base"} -> 9
    [] op.op \in {"s3_create", "s3_cancel", "s3_cancel_cid", "s3_cancel_all"} -> 10
    [] op.op = "s3_place" -> 18
    [] op.op = "s3_settle" -> IF G(op, "v1", 0) = 1 THEN 15 ELSE 17
    [] op.op = "s3_liq_cancel" -> 17
    [] op.op = "perp_liq_neg" -> IF G(op, "v1", 0) = 1 THEN 11 ELSE 14
    [] op.op = "region_end" -> 1
    [] OTHER -> 64
ActorPos(n) ==
  CASE n \in {"perp_liq_base"} -> 3
    [] n \in {"tcs_start", "tcs_trigger"} -> 2
    [] n \in {"flash_begin", "flash_swap_begin", "flash_end"} -> 0
    [] OTHER -> 1
\* accounts anyone may designate
Subjects == {<<"liq_token", 3>>, <<"liq_bankruptcy", 3>>, <<"force_close_borrows", 3>>, <<"perp_liq_base", 5>>, <<"perp_liq_neg", 3>>,
  <<"tcs_start", 1>>, <<"tcs_trigger", 1>>, <<"perp_settle_pnl", 4>>, <<"perp_settle_pnl", 5>>, <<"perp_settle_fees", 2>>,
  <<"perp_force_close", 2>>, <<"perp_force_close", 3>>, <<"perp_liq_cancel", 1>>, <<"deposit_existing", 1>>, <<"account_migrate", 1>>,
  <<"health_check", 1>>, <<"collateral_fees", 1>>, <<"compute", 1>>, <<"account_freeze", 1>>, <<"region_begin", 2>>, <<"region_end", 0>>}
SkipOps == {"deposit", "deposit_existing", "withdraw", "perp_place", "perp_peg", "s3_place", "flash_end"}
\* operations for which the further accounts only serve a health computation
HealthOps == SkipOps \cup LiqOps \cup {"perp_settle_pnl", "perp_settle_fees", "perp_liq_cancel", "collateral_fees", "s3_liq_cancel", "perp_force_close"}
StillHeld(L) ==
  /\ \A a \in AllAccs(L.pre) : L.pre.A[a + 1] # L.post.A[a + 1] =>
       LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
       /\ A.live = B.live
       /\ \A t \in Toks(L.pre) : Eq(TIdx(A, t), TIdx(B, t))
       /\ \A p \in Perps(L.pre) : HasPerp(A, p) =>
            HasPerp(B, p) /\ Eq(PPos(A, p).b, PPos(B, p).b)
            /\ (L.op.op = "perp_settle_fees" \/ Eq(PPos(A, p).q, PPos(B, p).q))     \* where funding is settled even if nothing else is
  /\ L.pre.B # L.post.B => \A t \in Toks(L.pre) : \A b \in BothBanks(L, t) :
       LET x == Bank(L.pre, t, b)  y == Bank(L.post, t, b) IN Eq(x.v, y.v) /\ Eq(x.id, y.id) /\ Eq(x.ib, y.ib) /\ Eq(x.di, y.di)
Unmoved(L) == L.pre.W = L.post.W /\ StillHeld(L)
\* given for a token or market that none of the accounts concerned has anything in
Spare(L, e) ==
  LET S == {L.pre, L.post}
      \* a liquidator that nothing happens to, or who only collects an incentive, is not looked at
      liqor == IF L.op.op \in LiqOps \ {"tcs_start"} /\ L.pre.A[L.op.l + 1] # L.post.A[L.op.l + 1] THEN {"l"} ELSE {}
      C == {a \in {G(L.op, f, -1) : f \in {"a"} \cup liqor \cup (IF L.op.op \in {"perp_settle_pnl", "perp_force_close"} THEN {"b"} ELSE {})} : a # -1}
  IN CASE e.wk \in {"bank", "oracle"} -> \A s \in S : \A a \in C : ~HasTok(Acc(s, a), e.wt)
       [] e.wk \in {"perp", "poracle"} -> \A s \in S : \A a \in C : ~HasPerp(Acc(s, a), e.wt)
       [] e.wk = "oo" -> e.wt \notin C \/ \A s \in S : ~HasSpot(Acc(s, e.wt), e.wb)
       [] OTHER -> FALSE
\* positions carry the program's own numbers, which are those used here unless something was listed with a chosen one
Numbered(s) == /\ \A t \in Toks(s) : LET k == Comp[s.T[t + 1]] IN k.live = 0 \/ Eq(k.i, t)
               /\ \A p \in Perps(s) : LET k == Comp[s.P[p + 1]] IN k.live = 0 \/ Eq(k.i, p)
\* a token was closed while some account still has a position in it: no bank can be given for it
Gone(s) == \E t \in Toks(s) : Comp[s.T[t + 1]].live = 0 /\ \E a \in AllAccs(s) : Live(s, a) /\ HasTok(Acc(s, a), t)
Plainly(s) == Numbered(s) /\ ~Gone(s)
\* may the operation succeed although this account was exchanged?
Exchangeable(L, e) ==
  LET op == L.op  n == op.op  i == e.i  pre == L.pre IN
  IF "unsigned" \in DOMAIN e THEN FALSE
  ELSE IF e.wk = "fallback" THEN TRUE
  ELSE IF n \in {"perp_place", "perp_peg"} /\ PastExpiry(op, pre.now) /\ L.pre = L.post THEN TRUE    \* too late for anything
  ELSE IF e.wk = "bank" /\ e.nk = "bank" /\ e.nf = 0 /\ e.wt = e.nt /\ n \notin {"update_index", "token_edit"} THEN TRUE    \* another bank of the token
  ELSE IF n = "force_withdraw" /\ e.wk = "wallet" THEN e.nf = 0 /\ e.nk = "wallet" /\ Acc(pre, e.nt).own = Acc(pre, op.a).own
  ELSE IF n = "token_deregister" /\ i \in {3, 4} THEN TRUE       \* where the remains go
  ELSE IF e.wk = "wallet" THEN
    /\ n \in {"withdraw", "withdraw_fees", "perp_withdraw_fees", "flash_begin", "flash_swap_begin", "flash_end", "insurance_withdraw"} /\ e.nf = 0
    /\ (e.nk = "wallet" /\ e.nb = e.wb) \/ (e.nk = "vault" /\ e.nt = e.wb) \/ L.pre = L.post
    \* a delegate pays out to the owner only
    /\ n = "withdraw" => (~Delegated(pre, op.a, G(op, "by", Acc(pre, op.a).own)) \/ (e.nk = "wallet" /\ Acc(pre, e.nt).own = Acc(pre, op.a).own))
  ELSE IF i < NFix(op) THEN
    CASE n = "token_edit" /\ i \in {3, 4} -> TRUE
      [] n = "perp_edit" /\ i = 3 -> TRUE
      [] n = "perp_edit" /\ i = 2 -> e.nf = 0 /\ e.nk = "perp"
      [] n \in {"perp_withdraw_fees", "perp_deactivate"} /\ e.wk = "perp" -> e.nf = 0 /\ e.nk = "perp"
      [] n = "s3_edit" /\ i = 2 -> e.nf = 0 /\ e.nk = "spot"
      [] n = "s3_close" /\ i = 7 -> TRUE
      \* the remains' destination
      [] (n = "perp_close" /\ i = 6) \/ (n = "s3_dereg" /\ i = 4) -> TRUE
      \* a listing chooses its oracle, and unused accounts for books and queue
      [] n \in {"token_register", "token_register_trustless"} /\ e.wk = "oracle" -> TRUE
      [] n = "perp_create" /\ e.wk = "poracle" -> TRUE
      [] n = "perp_create" /\ e.wk \in {"bids", "asks", "events"} -> e.nk \in {"bids", "asks", "events"}   \* checked to be all zero, hence unused
      \* the insurance fund was not needed
      [] n = "liq_bankruptcy" /\ i = 5 -> Eq(pre.ins, L.post.ins)
      [] n = "account_close" /\ i = 3 -> TRUE
      [] n \in {"tcs_create", "tcs_cancel"} /\ e.wk = "bank" -> e.nf = 0 /\ e.nk = "bank"
      [] e.wk = "acct" -> /\ e.nf = 0 /\ e.nk = "acct"
                          /\ \/ <<n, i>> \in Subjects
                             \/ /\ Signs(n) /\ i = ActorPos(n)
                                /\ LET w == G(op, "by", Acc(pre, Actor0(op)).own) IN
                                   IF n \in OwnerOps THEN Acc(pre, e.nt).own = w ELSE MayAct(pre, e.nt, w)
                             \/ n = "force_withdraw" /\ Acc(pre, e.nt).own = Acc(pre, op.a).own
                             \* nothing to settle: nothing of the other account is touched
                             \/ n = "buyback" /\ Unmoved(L)
      [] OTHER -> FALSE
  ELSE
    CASE n \in {"perp_consume", "s3_close"} -> TRUE
      [] Gone(pre) -> TRUE
      [] n \in SkipOps \cup {"health_check"} /\ e.wk = "bank" /\ e.nk = "bank" /\ e.nf = 0 ->
           \/ n # "health_check" /\ Unmoved(L)
           \* leaving out a token one owns counts for less; one that is owed has to be there
           \/ ~IsNeg(TIdx(Acc(L.post, op.a), e.wt))
      [] n \in {"perp_place", "perp_peg", "s3_place"} /\ Region(pre, op.a) -> TRUE      \* health is looked at later
      [] ~Numbered(pre) -> TRUE
      [] n \in HealthOps -> Unmoved(L) \/ Spare(L, e)
      [] n \in {"region_begin", "region_end", "health_check"} -> Spare(L, e)
      [] OTHER -> FALSE
Exchanges(i, L) ==
  LET op == L.op  S == op.subst IN
  IF "kept" \in DOMAIN op
  THEN Rule(i, "C15 accounts of another group are refused", op.op = "perp_consume" \/ (op.op \in {"perp_create", "token_register", "token_register_trustless"} /\ op.kept[1] = 0) \/ (op.kept[1] >= NFix(op) /\ StillHeld(L)) \/ (op.op = "liq_bankruptcy" /\ op.kept[1] = 5 /\ Unmoved(L)))
  ELSE Rule(i, IF "unsigned" \in DOMAIN S[1] THEN "C15 a missing signature is refused"
               ELSE IF S[1].nf = 1 THEN "C15 an account of another group is refused"
               ELSE "C15 accounts that do not belong together are refused", Exchangeable(L, S[1]))
\* -------------------------------------------------------------- delegation
AccessFields == {"own", "del", "td", "tdx"}
EditAccess(i, L) ==
  LET op == L.op  A == Acc(L.pre, op.a)  B == Acc(L.post, op.a) IN
  /\ Rule(i, "C15 an edit sets exactly the delegates asked for",
       /\ B.own = A.own
       /\ B.del = G(op, "delegate", A.del)
       /\ B.td = G(op, "tmp", A.td) /\ Eq(B.tdx, G(op, "tmp_exp", A.tdx)))
  /\ Rule(i, "C15 a temporary delegate comes with an expiry within a week",
       /\ ("tmp" \in DOMAIN op) = ("tmp_exp" \in DOMAIN op)
       /\ "tmp_exp" \in DOMAIN op => Lt(op.tmp_exp, Add(L.pre.now, 604800)))
Fixed(i, L) ==
  L.pre.A # L.post.A => \A a \in AllAccs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ Live(L.pre, a) /\ Live(L.post, a)) =>
    (L.op.op = "account_edit" /\ L.op.a = a) \/
      Rule(i, "C15 owner and delegates change only by an edit", Changed(Acc(L.pre, a), Acc(L.post, a)) \cap AccessFields = {})
Roles(i, L) ==
  (L.pre.g # L.post.g /\ L.op.op \notin {"group_edit", "init"}) =>
    Rule(i, "C15 the group's roles change only by an edit of the group", Changed(Grp(L.pre), Grp(L.post)) \cap {"adm", "fast", "sec", "cre", "num"} = {})
\* one transaction of several instructions
Loans(i, L) ==
  LET ops == L.op.ops IN
  \A k \in DOMAIN ops : (ops[k].op \in {"flash_begin", "flash_swap_begin"}
                          /\ G(ops[k], "by", Acc(L.pre, ops[k].a).own) # Acc(L.pre, ops[k].a).own) =>
    Rule(i, "C15 a delegate's flash loan goes nowhere but the exchanges allowed",
      \A j \in DOMAIN ops : j > k => ops[j].op \in {"flash_end", "compute_budget"})
SameBut(x, y, k) == DOMAIN x = DOMAIN y \cup {k} /\ \A f \in DOMAIN y : Same(x[f], y[f])
NotRefused(i, L) ==
  i > 1 =>
    LET K == Trace[i - 1] IN
    (K.ok = 0 /\ L.sub = 0 /\ K.sub = 0 /\ "by" \in DOMAIN K.op /\ "by" \notin DOMAIN L.op /\ K.pre = L.pre /\ K.w = L.w
       /\ L.op.op \notin {"batch", "ix_gate_set", "via_proxy"} /\ SameBut(K.op, L.op, "by")) =>
      ( \/ L.op.op = "withdraw" /\ Delegated(L.pre, L.op.a, K.op.by)
        \* (the fast-listing admin may list, within limits of its own: C28)
        \/ L.op.op \in ListOps /\ K.op.by = Grp(L.pre).fast
        \/ Rule(i, "C15 only those without the right are refused: " \o L.op.op, ~Permitted(K)) )
C15_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op IN
  (L.ok = 1 /\ n # "init") =>
    /\ "subst" \in DOMAIN op => Exchanges(i, L)
    /\ (Plainly(L.pre) /\ "subst" \in DOMAIN op /\ "kept" \notin DOMAIN op /\ n \in SkipOps /\ op.subst[1].i >= NFix(op) /\ op.subst[1].wk = "bank" /\ op.subst[1].wt # op.subst[1].nt)
         => C03_Ok(i, L)
    /\ ("subst" \notin DOMAIN op /\ n # "batch") => Rule(i, "C15 only those with the right may act: " \o n, Permitted(L) \/ (n \in {"perp_place", "perp_peg"} /\ PastExpiry(op, L.pre.now) /\ L.pre = L.post))
    /\ ("subst" \notin DOMAIN op /\ n = "withdraw") =>
         LET A == Acc(L.pre, op.a) IN
         (L.pre # L.post /\ Delegated(L.pre, op.a, G(op, "by", A.own))) =>
           /\ Rule(i, "C15 a delegate withdraws only to the owner", "to" \in DOMAIN op => Acc(L.pre, op.to).own = A.own)
           /\ Rule(i, "C15 a delegate only withdraws a whole position", ~HasTok(Acc(L.post, op.a), op.t))
    /\ (n = "account_edit" /\ "subst" \notin DOMAIN op) => EditAccess(i, L)
    /\ n # "batch" => Fixed(i, L) /\ Roles(i, L)
    /\ n = "batch" => Loans(i, L)
    /\ NotRefused(i, L)
=============================================================================
