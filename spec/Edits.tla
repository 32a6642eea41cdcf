-------------------------------- MODULE Edits --------------------------------
(* Administrative edits: exactly the parameters asked for change, to exactly the
   values asked for, on every bank of a token.  Tables: <<argument, field, encoding>>;
   encodings name how an argument is recorded: "i" integer or flag, "f32", "f48". *)
EXTENDS Mango
TokTable == {
  <<"maint_asset_weight", "maw", "f32">>, <<"init_asset_weight", "iaw", "f32">>, <<"maint_liab_weight", "mlw", "f32">>,
  <<"init_liab_weight", "ilw", "f32">>, <<"borrow_weight_scale_start_quote", "bws", "f48">>,
  <<"deposit_weight_scale_start_quote", "dws", "f48">>, <<"maint_weight_shift_start", "mss", "i">>,
  <<"maint_weight_shift_end", "mse", "i">>, <<"maint_weight_shift_asset_target", "msa", "f32">>,
  <<"maint_weight_shift_liab_target", "msl", "f32">>,
  <<"net_borrow_limit_per_window_quote", "nbl", "i">>, <<"net_borrow_limit_window_size_ts", "nbz", "i">>,
  <<"min_vault_to_deposits_ratio", "minv", "f48">>, <<"deposit_limit", "dl", "i">>,
  <<"util0", "u0", "f32">>, <<"rate0", "r0", "f32">>, <<"util1", "u1", "f32">>, <<"rate1", "r1", "f32">>, <<"max_rate", "mr", "f32">>,
  <<"adjustment_factor", "adj", "f32">>, <<"zero_util_rate", "zur", "f32">>, <<"interest_curve_scaling", "ics", "f32">>,
  <<"interest_target_utilization", "itu", "f32">>,
  <<"loan_origination_fee_rate", "lofr", "f32">>, <<"loan_fee_rate", "lfr", "f32">>, <<"liquidation_fee", "lf", "f32">>,
  <<"platform_liquidation_fee", "plf", "f32">>, <<"token_conditional_swap_taker_fee_rate", "tt", "f32">>,
  <<"token_conditional_swap_maker_fee_rate", "tm", "f32">>, <<"flash_loan_swap_fee_rate", "fls", "f32">>,
  <<"collateral_fee_per_day", "cfd", "f32">>,
  <<"reduce_only", "ro", "i">>, <<"force_close", "fc", "i">>, <<"disable_asset_liquidation", "dal", "i">>, <<"force_withdraw", "fw", "i">>,
  <<"conf_filter", "ocf", "f32">>}
PerpTable == {
  <<"maint_base_asset_weight", "maw", "f32">>, <<"init_base_asset_weight", "iaw", "f32">>, <<"maint_base_liab_weight", "mlw", "f32">>,
  <<"init_base_liab_weight", "ilw", "f32">>, <<"maint_overall_asset_weight", "mow", "f32">>, <<"init_overall_asset_weight", "iow", "f32">>,
  <<"base_liquidation_fee", "blf", "f32">>, <<"maker_fee", "mf", "f32">>, <<"taker_fee", "tf", "f32">>,
  <<"min_funding", "minf", "f32">>, <<"max_funding", "maxf", "f32">>, <<"impact_quantity", "imp", "i">>, <<"fee_penalty", "pen", "f32">>,
  <<"settle_fee_flat", "sff", "f32">>, <<"settle_fee_amount_threshold", "sft", "f32">>, <<"settle_fee_fraction_low_health", "sfl", "f32">>,
  <<"settle_pnl_limit_factor", "spf", "f32">>, <<"settle_pnl_limit_window_size_ts", "spz", "i">>, <<"group_insurance_fund", "gif", "i">>,
  <<"reduce_only", "ro", "i">>, <<"force_close", "fc", "i">>, <<"positive_pnl_liquidation_fee", "pplf", "f32">>,
  <<"platform_liquidation_fee", "plf", "f32">>, <<"conf_filter", "ocf", "f32">>, <<"base_decimals", "dec", "i">>}
Bit(v) == IF ToString(v) = "TRUE" THEN 1 ELSE IF ToString(v) = "FALSE" THEN 0 ELSE v
Arg(op, e) == IF e[3] = "i" THEN Bit(op[e[1]]) ELSE op[e[1]][e[3]]
\* the later of two administrative settings of one edit wins: nothing else touches these fields
Edited(op, e, old, new) == IF e[1] \in DOMAIN op THEN Eq(new[e[2]], Arg(op, e)) ELSE Same(old[e[2]], new[e[2]])
\* fields \subseteq the table's second column; skip: decided elsewhere
TokEdits(i, L, pid, what, fields, skip) ==
  LET op == L.op  T == {e \in TokTable : e[2] \in fields \ skip} IN
  (L.ok = 1 /\ op.op = "token_edit") =>
    \A b \in BothBanks(L, op.t) :
      Rule(i, pid \o " an edit sets exactly the " \o what \o " asked for", \A e \in T : Edited(op, e, Bank(L.pre, op.t, b), Bank(L.post, op.t, b)))
PerpEdits(i, L, pid, what, fields) ==
  LET op == L.op  T == {e \in PerpTable : e[2] \in fields} IN
  (L.ok = 1 /\ op.op = "perp_edit") =>
      Rule(i, pid \o " an edit sets exactly the market's " \o what \o " asked for", \A e \in T : Edited(op, e, Perp(L.pre, op.p), Perp(L.post, op.p)))
\* outside of edits they never change
TokFixed(i, L, pid, what, fields) ==
  (L.ok = 1 /\ L.op.op \notin {"token_edit", "token_register", "token_deregister", "init", "batch"} /\ L.pre.B # L.post.B) =>
    \A t \in Toks(L.pre) : \A b \in BothBanks(L, t) : L.pre.B[t + 1][b + 1] # L.post.B[t + 1][b + 1] =>
      Rule(i, pid \o " the " \o what \o " change only by edits", \A f \in fields : Same(Bank(L.pre, t, b)[f], Bank(L.post, t, b)[f]))
PerpFixed(i, L, pid, what, fields) ==
  (L.ok = 1 /\ L.op.op \notin {"perp_edit", "init", "batch"} /\ L.pre.P # L.post.P) =>
    \A p \in Perps(L.pre) \cap Perps(L.post) : L.pre.P[p + 1] # L.post.P[p + 1] =>
      Rule(i, pid \o " the market's " \o what \o " change only by edits", \A f \in fields : Same(Perp(L.pre, p)[f], Perp(L.post, p)[f]))
=============================================================================
