-------------------------------- MODULE C23 --------------------------------
(* Collateral weights: scaling with size, the scheduled shift, and what
   administration may set. *)
EXTENDS Health, Edits
WeightFields == {"maw", "iaw", "mlw", "ilw", "bws", "dws", "mss", "mse", "msa", "msl"}
ShiftFields == {"mss", "mse", "msd", "msa", "msl"}
PerpWeights == {"maw", "iaw", "mlw", "ilw", "mow", "iow"}
\* what an accepted configuration satisfies
Sane(b) ==
  /\ Ge(b.iaw, 0) /\ Ge(b.maw, b.iaw) /\ Ge(b.mlw, 0) /\ Ge(b.ilw, b.mlw)
  /\ IsPos(b.bws) /\ IsPos(b.dws) /\ Ge(b.msd, 0) /\ Ge(b.msa, 0) /\ Ge(b.msl, 0)
  /\ b.dal = 1 => (b.ro \in {1, 2} /\ Eq(b.maw, 0))
  /\ b.fw = 1 => (b.ro = 1 /\ b.dal = 1)
\* weights between old and new, in order
Between(x, a, b) == (Le(Min(a, b), x) /\ Le(x, Max(a, b)))
\* effective totals stay bounded
Bounded(bk, price) ==
  /\ Le(ScaledAssetWeight(bk, price), bk.iaw) /\ Ge(ScaledLiabWeight(bk, price), bk.ilw)
  /\ LET all == FxMul(Add(NatDeposits(bk), FxInt(bk.pst)), price) IN
     Eq(bk.dws, F64Max) \/ Le(all, bk.dws) \/ Near(FxMul(ScaledAssetWeight(bk, price), all), FxMul(bk.iaw, bk.dws), 1000, FxInt(1000))
Edit23(i, L) ==
  LET op == L.op  t == op.t  abort == "maint_weight_shift_abort" \in DOMAIN op /\ Bit(op["maint_weight_shift_abort"]) = 1 IN
  /\ TokEdits(i, L, "C23", "weights", WeightFields, IF abort THEN ShiftFields \cup {"maw", "mlw"} ELSE {})
  /\ Rule(i, "C23 inconsistent weights are refused", Sane(Bank0(L.post, t)))
  /\ \A k \in BothBanks(L, t) :
       LET b == Bank(L.pre, t, k)  c == Bank(L.post, t, k)
           timed == "maint_weight_shift_start" \in DOMAIN op \/ "maint_weight_shift_end" \in DOMAIN op IN
       /\ (abort /\ ~timed /\ "maint_weight_shift_asset_target" \notin DOMAIN op /\ "maint_weight_shift_liab_target" \notin DOMAIN op) =>
            Rule(i, "C23 aborting a shift keeps the weights of the moment",
              LET w == MaintWeights(b, L.pre.now) IN
              /\ "maint_asset_weight" \in DOMAIN op \/ Eq(c.maw, w[1])
              /\ "maint_liab_weight" \in DOMAIN op \/ Eq(c.mlw, w[2])
              /\ \A f \in ShiftFields : Eq(c[f], 0))
       /\ timed => Rule(i, "C23 a shift runs from its start to its end",
                     Eq(c.msd, IF Le(c.mse, c.mss) THEN 0 ELSE FxDiv(One, FxInt(Sub(c.mse, c.mss)))))
       /\ (~timed /\ ~abort) => Rule(i, "C23 only scheduling changes a shift's speed", Eq(b.msd, c.msd))
C23_Line(i) ==
  LET L == Trace[i]  op == L.op IN
  /\ (L.ok = 1 /\ op.op = "token_edit") => Edit23(i, L)
  /\ PerpEdits(i, L, "C23", "weights", PerpWeights)
  /\ TokFixed(i, L, "C23", "weights and their schedule", IF op.op = "update_index" THEN WeightFields \ (ShiftFields \cup {"maw", "mlw"}) ELSE WeightFields \cup {"msd"})
  /\ (L.ok = 1 /\ op.op = "update_index") => \A k \in BothBanks(L, op.t) :
       LET b == Bank(L.pre, op.t, k)  c == Bank(L.post, op.t, k)
           done == IsPos(b.msd) /\ Ge(L.pre.now, b.mse) IN
       Rule(i, "C23 an update completes a shift whose end has come, and only that",
         IF done THEN Eq(c.maw, b.msa) /\ Eq(c.mlw, b.msl) /\ \A f \in ShiftFields : Eq(c[f], 0)
         ELSE \A f \in ShiftFields \cup {"maw", "mlw"} : Same(b[f], c[f]))
  /\ PerpFixed(i, L, "C23", "weights", PerpWeights)
  /\ op.op = "token_register" /\ L.ok = 1 => \A t \in Toks(L.post) : Rule(i, "C23 a new token has consistent weights", Sane(Bank0(L.post, t)))
  \* on the states themselves
  /\ (L.post.B # L.pre.B \/ L.post.now # L.pre.now \/ op.op = "init") => \A t \in Toks(L.post) : \A k \in Banks(L.post, t) :
       LET b == Bank(L.post, t, k)  w == MaintWeights(b, L.post.now)  P == Max(Ora(L.post, t).px, BStable(b)) IN
       /\ Rule(i, "C23 a shift stays between the old and new weights", Eq(b.msd, 0) \/ (Between(w[1], b.maw, b.msa) /\ Between(w[2], b.mlw, b.msl)))
       /\ Rule(i, "C23 initial weights only tighten with size, totals stay bounded", Bounded(b, P))
  \* and what the program itself makes of them
  /\ (L.post # L.pre \/ op.op = "init") => \A a \in Accs(L.post) : \A ty \in {"i", "m"} :
       LET h == Hlt(L.post, a)[ty] IN
       (Computable(L.post, a, FALSE) /\ PerpSeq(Acc(L.post, a)) = <<>> /\ SpotSeq(Acc(L.post, a)) = <<>>) =>
         Rule(i, "C23 health uses the weights of the moment: " \o ty,
              LET g == HealthG(L.post, a, ty) IN HNear(h, g[1], g[2]))
=============================================================================
