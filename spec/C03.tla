-------------------------------- MODULE C03 --------------------------------
(* Health: its value, and that no owner action leaves an account unhealthy. *)
EXTENDS Perp
\* how a health that could not be computed is recorded: error, no account, panic
HErr == "-170141183460469231731687303715884105727"
HBad(h) == Lt(h, "-170141183460469231731687303715884105700")
HTypes == {"i", "m", "e"}
HealthMatches(s, a, ty) ==
  LET h == Hlt(s, a)[ty] IN
  IF ~Computable(s, a, FALSE) THEN Eq(h, HErr)
  ELSE /\ ~HBad(h)
       /\ LET g == HealthG(s, a, ty) IN HNear(h, g[1], g[2])

\* init health before and after, as the action computes it
Gate(i, name, pre, post, a, skip, adj) ==
  LET h0 == HealthX(pre, a, "i", skip, NoAdj)
      h1 == HealthX(post, a, "i", skip, adj)
      tol == Add(HTol(h0[2]), HTol(h1[2]))
  IN /\ Rule(i, "C03 " \o name \o " leaves the account healthy or no worse", PostOk(h0[1], h1[1], tol))
     /\ Rule(i, "C03 " \o name \o " refused while being liquidated", ~StillLiquidated(pre, a, skip) /\ Acc(post, a).bl = 0)
Strict(i, name, post, a) ==
  LET h == HealthG(post, a, "i")
  IN Rule(i, "C03 " \o name \o ": the acting account ends healthy", Computable(post, a, FALSE) /\ Ge(Add(h[1], HTol(h[2])), 0))
\* before a position of token t was opened by the action itself, its oracle already counts
Counted(s, a, t) == IF HasTok(Acc(s, a), t) THEN t \in CountedToks(s, Acc(s, a), TRUE) ELSE TOk(s, t)
Region(s, a) == Acc(s, a).hr = 1
OneAdj(t, b) == [x \in {t} |-> b]

C03_Ok(i, L) ==
  LET op == L.op  n == op.op  pre == LeavingOut(L.pre, op)  post == LeavingOut(L.post, op) IN
  CASE n = "withdraw" /\ ~Region(pre, op.a) ->
         LET nop == Eq(op.n, U64Max) /\ G(op, "borrow", 0) = 0 /\ IsNeg(TIdx(Acc(pre, op.a), op.t)) IN
         IF nop THEN TRUE
         ELSE IF Counted(pre, op.a, op.t) THEN Gate(i, "withdraw", pre, post, op.a, TRUE, OneAdj(op.t, G(op, "b", 0)))
         ELSE LET h0 == HealthX(pre, op.a, "i", TRUE, NoAdj) IN
              /\ Rule(i, "C03 withdrawing a token with a bad oracle needs health without it", Ge(Add(h0[1], HTol(h0[2])), 0))
              /\ Rule(i, "C03 no borrowing of a token with a bad oracle", ~IsNeg(TIdx(Acc(post, op.a), op.t)))
    \* funding and the stable price are updated before the health is first looked at
    [] n \in {"perp_place", "perp_peg"} /\ ~Region(pre, op.a) /\ ~PastExpiry(op, pre.now) -> Gate(i, n, [pre EXCEPT !.P = post.P], post, op.a, TRUE, NoAdj)
    [] n = "s3_place" /\ ~Region(pre, op.a) ->
         LET m == Spot(pre, op.s)
             pay == IF op.side = 0 THEN m.qi ELSE m.bi
         IN Gate(i, n, pre, post, op.a, TRUE, [t \in {m.bi, m.qi} |-> IF t = pay THEN G(op, "b", 0) ELSE 0])
    [] n = "flash_end" -> Gate(i, n, pre, post, op.a, TRUE, NoAdj)
    [] n = "tcs_start" -> LET c == Acc(pre, op.a).cs[op.i + 1] IN Gate(i, n, pre, post, op.a, FALSE, OneAdj(c.si, 0))
    [] n = "tcs_trigger" /\ Acc(pre, op.a).cs[op.i + 1].on = 1 ->
         LET c == Acc(pre, op.a).cs[op.i + 1]
             expired == Ge(pre.now, c.exp) IN
         IF expired THEN TRUE
         ELSE /\ Gate(i, n, pre, post, op.a, FALSE, [t \in {c.bi, c.si} |-> 0])
              /\ Region(post, op.l) \/ Strict(i, n, post, op.l)
    [] n = "region_begin" ->
         LET h == HealthX(pre, op.a, "i", FALSE, NoAdj) IN
         /\ Rule(i, "C03 region_begin refused while being liquidated", ~StillLiquidated(pre, op.a, FALSE) /\ Acc(post, op.a).bl = 0)
         /\ Rule(i, "C03 region_begin records the initial health", Within(FxInt(Acc(post, op.a).hrh), FxInt(FxCeil(h[1])), Add(HTol(h[2]), FxInt(1))))
    [] n = "region_end" ->
         LET h1 == HealthX(post, op.a, "i", FALSE, NoAdj) IN
         Rule(i, "C03 region_end leaves the account healthy or no worse", PostOk(FxInt(Acc(pre, op.a).hrh), h1[1], HTol(h1[2])))
    [] n \in {"liq_token", "liq_bankruptcy", "perp_liq_base", "perp_liq_neg", "force_close_borrows"} /\ L.pre.A # L.post.A
         /\ (L.pre.A[op.l + 1] # L.post.A[op.l + 1]) /\ ~Region(post, op.l) -> Strict(i, n, post, op.l)
    [] n = "perp_settle_fees" /\ L.pre.A[op.a + 1] # L.post.A[op.a + 1] /\ L.pre.B # L.post.B -> Strict(i, n, post, op.a)
    [] n \in {"deposit", "deposit_existing"} /\ Acc(pre, op.a).bl = 1 ->
         LET h == HealthX(post, op.a, "e", TRUE, NoAdj) IN
         Rule(i, "C03 a deposit while being liquidated must end the liquidation",
              Acc(post, op.a).bl = 0 /\ Gt(Add(h[1], HTol(h[2])), NegB(One)))
    [] OTHER -> TRUE
\* refusals must have their reason
C03_Fail(i, L) ==
  LET op == L.op  pre == L.pre  n == op.op IN
  /\ (L.code = 6016 /\ n \in {"withdraw", "perp_place", "perp_peg", "s3_place", "region_begin", "tcs_start"}) =>
       Rule(i, "C03 refused as being liquidated only when it is", Acc(pre, op.a).bl = 1)
  /\ (L.code = 6070 /\ n = "withdraw") =>
       Rule(i, "C03 refused for lack of a price only when borrowing what is not counted",
            ~Counted(LeavingOut(pre, op), op.a, op.t) /\ Gt(FxInt(op.n), TNat(pre, op.a, op.t)))

C03_Line(i) ==
  LET L == Trace[i] IN
  /\ \A a \in Accs(L.post) :
       (L.pre # L.post \/ L.op.op = "init") =>
       \A ty \in HTypes : Rule(i, "C03 health is the weighted worst-case value: " \o ty, HealthMatches(L.post, a, ty))
  /\ (L.ok = 1 /\ L.op.op # "batch") => C03_Ok(i, L)
  /\ (L.ok = 0 /\ L.op.op # "batch") => C03_Fail(i, L)
=============================================================================
