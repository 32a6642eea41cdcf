-------------------------------- MODULE C07 --------------------------------
(* Modes: disabled instructions, frozen accounts, reduce-only tokens and
   markets, forced closing and forced withdrawal. *)
EXTENDS Perp, Fees, Edits

\* ------------------------------------------------------------ disabled instructions
\* the instruction's number(s) among the group's switches; any of them open suffices
Gate7(op) ==
  LET n == op.op IN
  CASE n = "account_close" -> {0}      [] n = "account_create" -> {1}     [] n = "account_edit" -> {2}
    [] n = "account_expand" -> {3}     [] n = "account_freeze" -> {4}
    [] n \in {"flash_begin", "flash_swap_begin"} -> {7}                   [] n = "region_begin" -> {10}
    [] n = "perp_cancel_all" -> {11}   [] n = "perp_cancel_side" -> {12}  [] n = "perp_cancel" -> {13}
    [] n = "perp_cancel_cid" -> {14}   [] n = "perp_consume" -> {16}      [] n = "perp_deactivate" -> {18}
    [] n = "perp_liq_base" -> {19}     [] n = "perp_liq_cancel" -> {20}   [] n = "perp_liq_neg" -> {21}
    [] n \in {"perp_place", "perp_peg"} -> {22}
    [] n = "perp_settle_fees" -> {23}  [] n = "perp_settle_pnl" -> {24}   [] n = "perp_funding" -> {25}
    [] n = "s3_cancel_all" -> {26}     [] n = "s3_cancel" -> {27}         [] n = "s3_close" -> {28}
    [] n = "s3_create" -> {29}         [] n = "s3_liq_cancel" -> {32}
    [] n = "s3_place" -> IF G(op, "v1", 0) = 1 THEN {33, 71} ELSE {71}
    [] n = "s3_settle" -> {35}         [] n \in {"deposit", "deposit_existing"} -> {40}
    [] n = "liq_bankruptcy" -> {42}    [] n = "liq_token" -> {43}         [] n = "update_index" -> {46}
    [] n = "withdraw" -> {47}          [] n = "buyback" -> {48}           [] n = "force_close_borrows" -> {49}
    [] n = "perp_force_close" -> {50}
    [] n = "tcs_create" -> {IF G(op, "kind", 0) = 1 THEN 69 ELSE IF G(op, "kind", 0) = 2 THEN 70 ELSE 52}
    [] n = "tcs_trigger" -> {53}       [] n = "tcs_cancel" -> {54}        [] n = "withdraw_fees" -> {65}
    [] n = "perp_withdraw_fees" -> {66} [] n = "account_migrate" -> {67}  [] n = "tcs_start" -> {68}
    [] n = "oracle_set" -> {38}        [] n = "perp_close" -> {15}        [] n = "s3_dereg" -> {30}
    [] n = "token_deregister" -> {41}  [] n = "insurance_withdraw" -> {51}
    [] n = "force_withdraw" -> {72}    [] n = "seq_check" -> {73}         [] n = "health_check" -> {74}
    [] OTHER -> {}
\* what can not be switched off
NoGate7 == {"flash_end", "region_end", "collateral_fees", "s3_edit", "token_edit", "perp_edit", "group_edit", "ix_gate_set"}
Off(s) == Range(Grp(s).gate)
BitOf(mask, g) == Eq(FMod(Shr(mask, g), 2), 1)
C07_Gates(i, L) ==
  LET op == L.op  gs == Gate7(op)  off == Off(L.pre) IN
  /\ (L.ok = 1 /\ gs # {}) => Rule(i, "C07 a disabled instruction fails", \E g \in gs : g \notin off)
  /\ (L.ok = 0 /\ L.code = 6042 /\ op.op \notin {"batch", "via_proxy"}) =>
       Rule(i, "C07 only a disabled instruction fails as disabled", gs # {} /\ (\E g \in gs : g \in off) /\ (op.op = "s3_place" => gs \subseteq off))
  /\ (L.ok = 1 /\ op.op = "ix_gate_set") => Rule(i, "C07 exactly the chosen instructions are disabled", \A g \in 0..127 : (g \in Off(L.post)) = BitOf(op.gate, g))
  /\ (L.ok = 1 /\ op.op \notin {"ix_gate_set", "batch", "init"} /\ L.pre.g # L.post.g) => Rule(i, "C07 nothing else changes what is disabled", Off(L.pre) = Off(L.post))

\* ------------------------------------------------------------ frozen accounts
FreezeTime == 604800
Frozen(s, a) == Live(s, a) /\ Ge(Acc(s, a).fu, s.now)
\* the accounts an instruction must find unfrozen
Checks7(op) ==
  LET n == op.op IN
  CASE n \in {"account_edit", "seq_check", "s3_create", "s3_place", "s3_cancel_all", "s3_cancel", "s3_cancel_cid", "s3_settle", "s3_close", "tcs_create", "tcs_cancel",
              "perp_cancel_side", "perp_cancel", "collateral_fees", "health_check", "account_close", "perp_deactivate",
              "flash_begin", "flash_swap_begin", "flash_end", "force_withdraw", "perp_place", "perp_peg", "perp_settle_fees",
              "region_begin", "region_end", "account_expand", "deposit", "deposit_existing", "withdraw"} -> {op.a}
    [] n \in {"tcs_start", "tcs_trigger", "liq_token", "liq_bankruptcy", "force_close_borrows", "perp_liq_neg", "perp_liq_base"} -> {op.a, op.l}
    [] n = "perp_settle_pnl" -> {op.s, op.a, op.b}
    [] n = "perp_force_close" -> {op.a, op.b}
    [] n = "buyback" -> {op.a, op.dao}
    [] OTHER -> {}
\* what a frozen account still permits, all of which can only reduce its risk or concerns others
C07_Frozen(i, L) ==
  LET op == L.op  as == Checks7(op) IN
  /\ (L.ok = 1 /\ as # {} /\ "subst" \notin DOMAIN op) => Rule(i, "C07 nothing happens with a frozen account", \A a \in as : ~Frozen(L.pre, a))
  /\ (L.ok = 0 /\ L.code = 6038 /\ op.op \notin {"batch", "via_proxy"} /\ "subst" \notin DOMAIN op) =>
       Rule(i, "C07 only a frozen account is refused as frozen", \E a \in as : Frozen(L.pre, a))
  /\ (L.ok = 1 /\ op.op = "account_freeze") =>
       Rule(i, "C07 freezing lasts a week and ends when lifted",
            LET B == Acc(L.post, op.a) IN
            Same([Acc(L.pre, op.a) EXCEPT !.fu = IF Bit(op.freeze) = 1 THEN Add(L.pre.now, FreezeTime) ELSE 0], B))
  /\ (L.ok = 1 /\ op.op \notin {"account_freeze", "batch", "init"} /\ L.pre.A # L.post.A) =>
       Rule(i, "C07 nothing else freezes or unfreezes", \A a \in AllAccs(L.pre) : (Live(L.pre, a) /\ Live(L.post, a)) => Eq(Acc(L.pre, a).fu, Acc(L.post, a).fu))

\* ------------------------------------------------------------ reduce-only tokens
RoD7(bk) == bk.ro = 1             \* no new deposits
RoB7(bk) == bk.ro \in {1, 2}      \* no new borrows
ByUser == {"deposit", "deposit_existing", "withdraw", "flash_end", "tcs_trigger", "s3_place", "force_close_borrows"}
BankOf7(L, t) == IF L.op.op \in {"deposit", "deposit_existing", "withdraw"} /\ t = L.op.t THEN G(L.op, "b", 0)
                 ELSE IF L.op.op = "s3_place" /\ t = (IF L.op.side = 0 THEN Spot(L.pre, L.op.s).qi ELSE Spot(L.pre, L.op.s).bi) THEN G(L.op, "b", 0) ELSE 0
AmountRo(bk, nat, n, ro) == IF ro \/ RoD7(bk) THEN Min(FxCeil(Abs(Min(nat, 0))), n) ELSE n
\* deposits on the way: what the account's spot orders in token t would at most turn into
Potential(s, a, t) ==
  LET I == HInfoStd(s, a, "m")
      P(k) == IF I.spots[k].bi # t /\ I.spots[k].qi # t THEN 0
              ELSE IF Eq(I.spots[k].b, 0) \/ Eq(I.spots[k].q, 0) THEN 0
              ELSE IF I.spots[k].bi = t THEN I.spots[k].b ELSE I.spots[k].q
  IN SumSeq([k \in DOMAIN I.spots |-> P(k)])
C07_Tokens(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  n == op.op IN
  /\ (L.ok = 1 /\ n \in ByUser) =>
       \A t \in Toks(pre) : Bank0(pre, t).ro # 0 =>
         \A a \in Accs(pre) \cap Accs(post) : pre.A[a + 1] # post.A[a + 1] =>
           LET k == BankOf7(L, t)  b == Bank(pre, t, k)  c == Bank(post, t, k)
               x == TIdx(Acc(pre, a), t)  y == TIdx(Acc(post, a), t) IN
           /\ RoB7(b) => Rule(i, "C07 no borrow of a reduce-only token grows", Ge(y, Min(x, 0)))
           /\ RoD7(b) => Rule(i, "C07 no deposit of a fully reduce-only token grows", Le(Native(y, c), Add(Max(Native(x, b), 0), One)))
  /\ (L.ok = 1 /\ n \in {"deposit", "deposit_existing"}) =>
       LET b == Bank(pre, op.t, G(op, "b", 0))  nat == Native(TIdx(Acc(pre, op.a), op.t), b)  c == Bank(post, op.t, G(op, "b", 0)) IN
       /\ (RoD7(b) \/ G(op, "ro", 0) # 0) =>
            Rule(i, "C07 a reducing deposit takes just what repays the debt", Eq(Sub(c.v, b.v), AmountRo(b, nat, op.n, TRUE)))
       /\ RoD7(b) => Rule(i, "C07 a deposit is cut short only with the user's consent", G(op, "ro", 0) # 0 \/ Eq(AmountRo(b, nat, op.n, TRUE), op.n))
  /\ (L.ok = 1 /\ n = "s3_place") =>
       LET S == Spot(pre, op.s)  rt == IF op.side = 0 THEN S.bi ELSE S.qi IN
       /\ Rule(i, "C07 no orders on a reduce-only market", S.ro = 0)
       /\ (RoD7(Bank0(pre, rt)) /\ Ne(TPrice(post, rt), 0)) =>
            Rule(i, "C07 no order that could create deposits of a fully reduce-only token",
                 Lt(Add(HInfoStd(post, op.a, "m").toks[rt].bal, Potential(post, op.a, rt)), Add(One, "281474976")))
  /\ (L.ok = 0 /\ L.code = 6030 /\ n \notin {"batch", "via_proxy"}) =>
       Rule(i, "C07 refused as reduce-only only where reduce-only is set", \E t \in Toks(pre) : Bank0(pre, t).ro # 0)
  /\ (L.ok = 0 /\ L.code = 6030 /\ n \in {"deposit", "deposit_existing"} /\ "subst" \notin DOMAIN op) =>
       LET b == Bank(pre, op.t, G(op, "b", 0))  nat == Native(TIdx(Acc(pre, op.a), op.t), b) IN
       Rule(i, "C07 reducing deposits are not refused", RoD7(b) /\ G(op, "ro", 0) = 0 /\ Lt(AmountRo(b, nat, op.n, TRUE), op.n))
  /\ (L.ok = 0 /\ L.code = 6030 /\ n = "withdraw" /\ "subst" \notin DOMAIN op) =>
       LET b == Bank(pre, op.t, G(op, "b", 0))  nat == Native(TIdx(Acc(pre, op.a), op.t), b) IN
       Rule(i, "C07 withdrawing deposits is not refused", RoB7(b) /\ Gt(FxInt(op.n), nat))
  /\ (L.ok = 0 /\ L.code = 6030 /\ n = "flash_end" /\ "subst" \notin DOMAIN op) =>
       Rule(i, "C07 reducing flash loans are not refused",
            \E t \in {op.loans[k].t : k \in DOMAIN op.loans} :
              LET X == FlashBook(L, t)  b == Bank0(pre, t) IN
              \/ RoD7(b) /\ Ge(X.after, One) /\ Gt(X.after, X.nat)
              \/ RoB7(b) /\ Lt(X.after, X.nat) /\ IsNeg(X.after))
  /\ (L.ok = 0 /\ L.code = 6031 /\ n = "s3_place" /\ "subst" \notin DOMAIN op) => Rule(i, "C07 orders are refused as reduce-only only there", Spot(pre, op.s).ro = 1)
  /\ (L.ok = 1 /\ n = "liq_token" /\ pre.A # post.A) => Rule(i, "C07 protected assets are not liquidated", Bank0(pre, op.at).dal = 0)
  /\ (L.ok = 0 /\ L.code = 6069 /\ n \notin {"batch", "via_proxy"}) => Rule(i, "C07 only protected assets are refused as protected", n # "liq_token" \/ Bank0(pre, op.at).dal = 1)

\* ------------------------------------------------------------ reduce-only markets
\* the largest the account's position can become when everything pending on side d executes
Reach(P, d) == IF d = 0 THEN Max(0, Add(EffLots(P), P.bb)) ELSE Max(0, NegB(Sub(EffLots(P), P.ab)))
C07_Perps(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  n == op.op IN
  /\ (L.ok = 1 /\ n \in {"perp_place", "perp_peg"} /\ ~PastExpiry(op, pre.now)) =>
       LET m == Perp(pre, op.p)  P == PosOrNew(Acc(pre, op.a), op.p)  Q == PosOrNew(Acc(post, op.a), op.p)
           cap == ReduceOnlyLots(P, op.side, m.ro = 1)
           grown == IF op.side = 0 THEN Add(Sub(Q.bb, P.bb), Sub(EffLots(Q), EffLots(P)))
                    ELSE Add(Sub(Q.ab, P.ab), Sub(EffLots(P), EffLots(Q))) IN
       /\ (m.ro = 1 \/ G(op, "ro", 0) = 1) => Rule(i, "C07 a reduce-only order takes and rests no more than reduces the position", Le(grown, Min(cap, op.base)))
       /\ m.ro = 1 =>
            /\ Rule(i, "C07 in a reduce-only market no position can grow", Le(Abs(EffLots(Q)), Abs(EffLots(P))) /\ Le(Reach(Q, op.side), Reach(P, op.side)))
            /\ Rule(i, "C07 an order is cut short only with the user's consent", G(op, "ro", 0) = 1 \/ Le(op.base, cap))
  /\ (L.ok = 0 /\ L.code = 6031 /\ n \in {"perp_place", "perp_peg"} /\ "subst" \notin DOMAIN op) =>
       LET m == Perp(pre, op.p)  P == PosOrNew(Acc(pre, op.a), op.p) IN
       Rule(i, "C07 reducing orders are not refused", m.ro = 1 /\ G(op, "ro", 0) = 0 /\ Gt(op.base, ReduceOnlyLots(P, op.side, TRUE)))

\* ------------------------------------------------------------ forced closing
C07_ForcePerp(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  p == op.p
      m == Perp(pre, p)  px == POra(pre, p).px
      Pa == PPos(Acc(pre, op.a), p)  Pb == PPos(Acc(pre, op.b), p)
      n == Min(Pa.b, NegB(Pb.b))
      q == FxMul(FxInt(Mul(n, m.bl)), px)
      ra == RecordTrade(SettleFunding(Pa, m), m, NegB(n), q)
      rb == RecordTrade(SettleFunding(Pb, m), ra[2], n, NegB(q)) IN
  /\ Rule(i, "C07 positions are closed by force only in a market set to force-close", m.fc = 1)
  /\ Rule(i, "C07 a long closes against a short", IsPos(Pa.b) /\ IsNeg(Pb.b))
  /\ Rule(i, "C07 both positions shrink alike, at the oracle price",
          PosSame(ra[1], PPos(Acc(post, op.a), p), 0) /\ PosSame(rb[1], PPos(Acc(post, op.b), p), 0))
  /\ Rule(i, "C07 the market only loses open interest", Same(rb[2], Perp(post, p)))
  /\ Rule(i, "C07 closing perps by force touches nothing else",
          /\ pre.B = post.B /\ pre.W = post.W
          /\ \A a \in AllAccs(pre) : IF a \notin {op.a, op.b} THEN pre.A[a + 1] = post.A[a + 1]
               ELSE Same([Acc(pre, a) EXCEPT !.pp = 0], [Acc(post, a) EXCEPT !.pp = 0])
                    /\ \A k \in DOMAIN Acc(pre, a).pp : Acc(pre, a).pp[k].m = p \/ Same(Acc(pre, a).pp[k], Acc(post, a).pp[k]))
C07_ForceBorrows(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post
      A == Acc(pre, op.a)  Q == Acc(pre, op.l)  A2 == Acc(post, op.a)  Q2 == Acc(post, op.l)
      ab == Bank0(pre, op.at)  lb == Bank0(pre, op.lt)
      fq == FxMul(Add(One, lb.lf), Add(One, ab.lf))
      ft == FxMul(Add(Add(One, lb.lf), lb.plf), Add(Add(One, ab.lf), ab.plf))
      nl == Native(TIdx(A, op.lt), lb)  nq == Native(TIdx(Q, op.lt), lb)
      n == Max(Min(Min(FxInt(op.n), NegB(nl)), nq), 0)
      base == FxDiv(FxMul(n, TPrice(pre, op.lt)), TPrice(pre, op.at))
      toQ == FxMul(base, fq)  fromA == FxMul(base, ft)  fee == Sub(fromA, toQ)
      l1 == BankDeposit(lb, TIdx(A, op.lt), n, TRUE, pre.now)
      l2 == BankWithdraw(l1.bk, TIdx(Q, op.lt), n, TRUE, ~InUseTok(Q, op.lt), pre.now)
      a1 == BankDeposit([ab EXCEPT !.fee = Add(@, fee), !.lfee = Add(@, fee)], TIdx(Q, op.at), toQ, ~InUseTok(Q, op.at), pre.now)
      a2 == BankWithdraw(a1.bk, TIdx(A, op.at), fromA, FALSE, TRUE, pre.now) IN
  /\ Rule(i, "C07 borrows are closed by force only in a token set to force-close", lb.fc = 1)
  /\ Rule(i, "C07 the collateral taken is not reduce-only", ~RoB7(ab))
  /\ Rule(i, "C07 only debts are closed, out of existing deposits", IsNeg(nl) /\ IsPos(nq) /\ op.l # op.a /\ op.at # op.lt)
  /\ Rule(i, "C07 only collateral that can not hurt the debtor is taken", Ge(lb.ilw, FxMul(ab.ilw, ft)))
  /\ Rule(i, "C07 the debt shrinks by what the closer hands over", Eq(TIdx(A2, op.lt), l1.x) /\ Eq(TIdx(Q2, op.lt), l2.x) /\ LedgerEq(l2.bk, Bank0(post, op.lt)) /\ Ge(l2.x, 0))
  /\ Rule(i, "C07 the closer gets collateral at the oracle price with the configured fees",
          Eq(TIdx(Q2, op.at), a1.x) /\ Eq(TIdx(A2, op.at), a2.x) /\ LedgerEq(a2.bk, Bank0(post, op.at)) /\ Eq(a2.bk.lfee, Bank0(post, op.at).lfee))
  /\ Rule(i, "C07 closing borrows by force touches nothing else",
          /\ pre.W = post.W /\ pre.P = post.P
          /\ \A a \in AllAccs(pre) : IF a \notin {op.a, op.l} THEN pre.A[a + 1] = post.A[a + 1]
               ELSE \A t \in Toks(pre) \ {op.at, op.lt} : Eq(TIdx(Acc(pre, a), t), TIdx(Acc(post, a), t))
          /\ \A t \in Toks(pre) \ {op.at, op.lt} : pre.B[t + 1] = post.B[t + 1])
C07_ForceWithdraw(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  k == G(op, "b", 0)  bk == Bank(pre, op.t, k)  c == Bank(post, op.t, k)
      A == Acc(pre, op.a)  nat == Native(TIdx(A, op.t), bk)  n == FxFloor(nat)
      r == BankWithdraw(bk, TIdx(A, op.t), FxInt(n), FALSE, ~InUseTok(A, op.t), pre.now) IN
  /\ Rule(i, "C07 deposits are withdrawn by force only from a token set so", bk.fw = 1)
  /\ Rule(i, "C07 only deposits are withdrawn by force", Ge(nat, 0))
  /\ Rule(i, "C07 the whole deposit goes to the owner",
          Eq(TIdx(Acc(post, op.a), op.t), r.x) /\ LedgerEq(r.bk, c) /\ Eq(c.v, Sub(bk.v, n))
          /\ Eq(Wal(post, op.a)[op.t + 1], Add(Wal(pre, op.a)[op.t + 1], n)))
  /\ Rule(i, "C07 withdrawing by force touches nothing else",
          \A a \in AllAccs(pre) : IF a = op.a THEN \A t \in Toks(pre) \ {op.t} : Eq(TIdx(Acc(pre, a), t), TIdx(Acc(post, a), t)) ELSE pre.A[a + 1] = post.A[a + 1] /\ pre.W[a + 1] = post.W[a + 1])
C07_Force(i, L) ==
  LET op == L.op IN
  L.ok = 1 =>
    CASE op.op = "perp_force_close" -> C07_ForcePerp(i, L)
      [] op.op = "force_close_borrows" -> C07_ForceBorrows(i, L)
      [] op.op = "force_withdraw" -> C07_ForceWithdraw(i, L)
      [] OTHER -> TRUE

\* ------------------------------------------------------------ setting the modes
S3Modes(i, L) ==
  LET op == L.op IN
  /\ (L.ok = 1 /\ op.op = "s3_edit") =>
       LET S == Spot(L.pre, op.s)  R == Spot(L.post, op.s)
           V(k, old) == IF k \in DOMAIN op THEN Bit(op[k]) ELSE old IN
       /\ Rule(i, "C07 an edit sets exactly the spot market's modes asked for", R.ro = V("reduce_only", S.ro) /\ R.fc = V("force_close", S.fc))
       /\ Rule(i, "C07 force-close needs reduce-only first", Bit(G(op, "force_close", 0)) = 1 => R.ro = 1)
  /\ (L.ok = 1 /\ op.op \notin {"s3_edit", "init", "batch", "s3_dereg"} /\ L.pre.S # L.post.S) =>
       Rule(i, "C07 the spot market's modes change only by edits",
            \A m \in Spots(L.pre) \cap Spots(L.post) : Spot(L.pre, m).ro = Spot(L.post, m).ro /\ Spot(L.pre, m).fc = Spot(L.post, m).fc)
  /\ (L.ok = 1 /\ op.op = "token_edit" /\ "force_close" \in DOMAIN op) =>
       Rule(i, "C07 a token is force-closed only while reduce-only", Bit(op.force_close) = 1 => \A b \in Banks(L.post, op.t) : Bank(L.post, op.t, b).ro > 0)
ModeF == {"ro", "fc", "dal", "fw"}
C07_Line(i) ==
  LET L == Trace[i] IN
  /\ C07_Gates(i, L) /\ C07_Frozen(i, L) /\ C07_Tokens(i, L) /\ C07_Perps(i, L) /\ C07_Force(i, L) /\ S3Modes(i, L)
  /\ TokEdits(i, L, "C07", "modes", ModeF, {}) /\ TokFixed(i, L, "C07", "modes", ModeF)
  /\ PerpEdits(i, L, "C07", "modes", {"ro", "fc"}) /\ PerpFixed(i, L, "C07", "modes", {"ro", "fc"})
=============================================================================
