-------------------------------- MODULE C16 --------------------------------
(* Which prices may be used, where a good one is needed, and where not. *)
EXTENDS Health, Edits
Full(s, a) == Computable(s, a, FALSE)
Skip(s, a) == Computable(s, a, TRUE)
NoRegion(s, a) == Acc(s, a).hr = 0
PConf(s, p) == OracleConfident(POra(s, p), Perp(s, p).ocf)
TConf(s, t) == OracleConfident(Ora(s, t), Bank0(s, t).ocf)
\* a liquidation that found nothing to do may end before looking at prices
Moved(L) == L.pre.A # L.post.A
Need(i, op, what, cond) == Rule(i, "C16 " \o op \o " needs " \o what, cond)
C16_Ok(i, L) ==
  LET op == L.op  n == op.op  pre == LeavingOut(L.pre, op)  post == LeavingOut(L.post, op) IN
  CASE n \in {"liq_token", "liq_bankruptcy", "perp_liq_base", "perp_liq_neg"} /\ Moved(L) ->
         /\ Need(i, n, "good prices of all the liquidatee holds", Full(pre, op.a))
         /\ (pre.A[op.l + 1] # post.A[op.l + 1] /\ NoRegion(post, op.l)) => Need(i, n, "good prices of all the liquidator holds", Full(post, op.l))
         /\ n = "perp_liq_base" => Need(i, n, "a good price of the market", POk(pre, op.p))
         /\ n = "perp_liq_neg" => Need(i, n, "a good price of the market and its settle token", POk(pre, op.p) /\ PrimaryOk(pre, Perp(pre, op.p).st))
         /\ n = "liq_token" => Need(i, n, "good prices of both tokens", TOk(pre, op.at) /\ TOk(pre, op.lt))
         /\ n = "liq_bankruptcy" => Need(i, n, "a good price of the liability", TOk(pre, op.lt))
    [] n = "force_close_borrows" /\ Moved(L) ->
         /\ Need(i, n, "good prices of both tokens", TOk(pre, op.at) /\ TOk(pre, op.lt))
         /\ Need(i, n, "good prices of all the liquidatee holds", Full(pre, op.a))
    [] n = "perp_force_close" /\ Moved(L) -> Need(i, n, "a good price of the market", POk(pre, op.p))
    [] n = "perp_settle_pnl" /\ Moved(L) ->
         /\ Need(i, n, "good prices of all both sides hold", Full(pre, op.a) /\ Full(pre, op.b))
         /\ Need(i, n, "a good price of the market", POk(pre, op.p) /\ TConf(pre, Perp(pre, op.p).st))
    [] n = "perp_settle_fees" /\ pre.B # post.B ->
         /\ Need(i, n, "good prices of all the account holds", Full(post, op.a))
         /\ Need(i, n, "a good price of the market", POk(pre, op.p))
    [] n = "perp_funding" /\ pre.P # post.P -> Need(i, n, "a good price of the market", POk(pre, op.p))
    [] n \in {"perp_place", "perp_peg"} /\ pre.P # post.P ->
         /\ Need(i, n, "a confident price of the market", PConf(pre, op.p))
         /\ NoRegion(pre, op.a) => /\ Need(i, n, "a current price of the market", POk(pre, op.p) \/ ~HasPerp(Acc(post, op.a), op.p))
                                   /\ Need(i, n, "good prices of what the account owes", Skip(post, op.a))
    [] n = "withdraw" /\ NoRegion(pre, op.a) /\ Moved(L) ->
         /\ Need(i, n, "good prices of what the account owes", Skip(post, op.a))
         /\ IsNeg(TIdx(Acc(post, op.a), op.t)) => Need(i, n, "a good price of what is borrowed", TOk(pre, op.t))
    [] n = "s3_place" ->
         /\ Need(i, n, "a confident price of the payer token", TConf(pre, IF op.side = 0 THEN Spot(pre, op.s).qi ELSE Spot(pre, op.s).bi))
         /\ NoRegion(pre, op.a) => Need(i, n, "good prices of what the account owes", Skip(post, op.a))
         /\ \A t \in {Spot(pre, op.s).bi, Spot(pre, op.s).qi} : (NoRegion(pre, op.a) /\ IsNeg(TIdx(Acc(post, op.a), t))) => Need(i, n, "good prices of what it borrows", TOk(pre, t))
    [] n = "flash_end" /\ NoRegion(pre, op.a) ->
         /\ Need(i, n, "good prices of what the account owes", Skip(post, op.a))
         \* whatever it newly borrows must be priced
         /\ \A t \in TokIds(Acc(post, op.a)) : (IsNeg(TIdx(Acc(post, op.a), t)) /\ Ne(TIdx(Acc(post, op.a), t), TIdx(Acc(pre, op.a), t))) =>
              Need(i, n, "a good price of what is borrowed", TOk(pre, t))
    [] n \in {"deposit", "deposit_existing"} ->
         ~HasTok(Acc(pre, op.a), op.t) => Need(i, n, "a good price when a token is new to the account", PrimaryOk(pre, op.t))
    [] n \in {"tcs_start", "tcs_trigger"} /\ Moved(L) ->
         LET c == Acc(pre, op.a).cs[op.i + 1] IN
         (c.on = 1 /\ Lt(pre.now, c.exp)) =>
         /\ Need(i, n, "good prices of all the account holds", Full(post, op.a))
         /\ Need(i, n, "good prices of the tokens swapped", TOk(pre, c.bi) /\ TOk(pre, c.si))
         /\ (n = "tcs_trigger" /\ NoRegion(post, op.l)) => Need(i, n, "good prices of all the caller holds", Full(post, op.l))
    [] n \in {"region_begin", "region_end"} -> Need(i, n, "good prices of all the account holds", Full(pre, op.a))
    [] n = "buyback" /\ Moved(L) -> Need(i, n, "good prices of both tokens", (PrimaryOk(pre, op.m) /\ PrimaryOk(pre, 0)) \/ pre.B = post.B)
    [] n = "collateral_fees" /\ pre.B # post.B -> Need(i, n, "good prices of all the account holds", Full(pre, op.a))
    [] n \in {"perp_liq_cancel", "s3_liq_cancel"} /\ Moved(L) -> Need(i, n, "good prices of all the account holds", Full(pre, op.a))
    [] n = "update_index" -> IF PrimaryOk(pre, op.t) THEN TRUE
         ELSE /\ Need(i, n, "a good price, or does nothing", G(op, "resilient", 0) # 0 /\ pre.B = post.B)
    [] OTHER -> TRUE
\* a refusal for a bad price has one among what was looked at
InvolvedToks(s, op) ==
  LET accs == {op[k] : k \in {"a", "l", "b", "dao", "from"} \cap DOMAIN op} \cap AllAccs(s)
      own == UNION {TokIds(Acc(s, a)) : a \in {x \in accs : Live(s, x)}}
      named == {op[k] : k \in {"t", "at", "lt", "bt", "st", "m"} \cap DOMAIN op}
      spot == IF "s" \in DOMAIN op /\ op.s \in Spots(s) THEN {Spot(s, op.s).bi, Spot(s, op.s).qi} ELSE {}
  IN (own \cup named \cup spot \cup {0}) \cap Toks(s)
InvolvedPerps(s, op) ==
  LET accs == {op[k] : k \in {"a", "l", "b"} \cap DOMAIN op} \cap AllAccs(s)
  IN (UNION {Range(PerpSeq(Acc(s, a))) : a \in {x \in accs : Live(s, x)}} \cup (IF "p" \in DOMAIN op THEN {op.p} ELSE {})) \cap Perps(s)
C16_Fail(i, L) ==
  LET op == L.op  n == op.op  s == L.pre IN
  (L.code \in {6023, 6024} /\ n \notin {"batch", "via_proxy"}) =>
  /\ Rule(i, "C16 refused for a bad price only when one is bad",
       \/ \E t \in InvolvedToks(s, op) : ~PrimaryOk(s, t)
       \/ \E p \in InvolvedPerps(s, op) : ~POk(s, p)
       \/ \E t \in Toks(s) : ~PrimaryOk(s, t) /\ n \in {"flash_end", "compute"})
  /\ Rule(i, "C16 confidence and staleness are told apart",
       LET toks == IF n = "flash_end" THEN Toks(s) ELSE InvolvedToks(s, op)
           badT(t) == IF Bank0(s, t).fbo = 1 /\ FbOra(s, t).none = 0 THEN {Ora(s, t), FbOra(s, t)} ELSE {Ora(s, t)} IN
       \/ \E t \in toks : \E o \in badT(t) :
            IF L.code = 6023 THEN ~OracleConfident(o, Bank0(s, t).ocf) ELSE ~OracleFresh(o, Bank0(s, t).oms, s.slot)
       \/ \E p \in InvolvedPerps(s, op) :
            IF L.code = 6023 THEN ~PConf(s, p) ELSE ~OracleFresh(POra(s, p), Perp(s, p).oms, s.slot))
  /\ Rule(i, "C16 paying into a position held works whatever its price", n \in {"deposit", "deposit_existing"} => (~HasTok(Acc(s, op.a), op.t) \/ ~Skip(s, op.a)))
\* health itself: defined exactly when everything it must count has a good price
BadPrices(s) == \E t \in Toks(s) : ~PrimaryOk(s, t)
C16_Line(i) ==
  LET L == Trace[i]  n == L.op.op IN
  /\ (L.ok = 1 /\ n \notin {"batch", "via_proxy", "init"}) => C16_Ok(i, L)
  /\ L.ok = 0 => C16_Fail(i, L)
  /\ (L.pre # L.post \/ n = "init") => \A a \in Accs(L.post) : \A ty \in {"i", "m"} :
       LET h == Hlt(L.post, a)[ty] IN
       IF ~Full(L.post, a) THEN Rule(i, "C16 no health from a bad price", Lt(h, "-170141183460469231731687303715884105700"))
       ELSE (BadPrices(L.post) /\ \E t \in TokIds(Acc(L.post, a)) : ~PrimaryOk(L.post, t)) =>
         Rule(i, "C16 a good fallback stands in for a bad price", LET g == HealthG(L.post, a, ty) IN HNear(h, g[1], g[2]))
  /\ TokEdits(i, L, "C16", "oracle settings", {"ocf"}, {}) /\ TokFixed(i, L, "C16", "oracle settings", {"ocf", "oms"})
  /\ PerpEdits(i, L, "C16", "oracle settings", {"ocf"}) /\ PerpFixed(i, L, "C16", "oracle settings", {"ocf", "oms"})
=============================================================================
