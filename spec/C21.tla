-------------------------------- MODULE C21 --------------------------------
(* Health regions defer the health check to their end; sequence numbers; explicit health checks. *)
EXTENDS Fees
Inner == {"perp_cancel_all", "perp_cancel_side", "perp_cancel", "perp_cancel_cid", "perp_place", "perp_peg",
          "s3_cancel_all", "s3_cancel", "s3_place", "s3_settle"}
\* operations that belong to another program
Alien == {"via_proxy", "compute_budget", "spl_transfer", "dex_fill"}
\* a region begun as operation j of a transaction: everything up to its end is of a kind allowed in it
Closed(ops, j) == \E k \in (j + 1)..Len(ops) :
  /\ ops[k].op = "region_end" /\ ops[k].a = ops[j].a
  /\ \A x \in (j + 1)..(k - 1) : ops[x].op \in Inner
\* the two accounts of a region that begins at ops[j] agree, up to the first end
WellFormed(ops, j) == LET ends == {k \in (j + 1)..Len(ops) : ops[k].op = "region_end"} IN
  /\ ends # {}
  /\ LET k == CHOOSE x \in ends : \A y \in ends : x <= y IN
     ops[k].a = ops[j].a /\ \A x \in (j + 1)..(k - 1) : ops[x].op \in Inner
RegionField(A, B) == Changed(A, B) \cap {"hr", "hrh"}
----------------------------------------------------------------------------
\* -- health as a ratio of assets to liabilities ---------------------------------
LPos(x) == IF IsPos(x) THEN x ELSE 0
LNeg(x) == IF IsNeg(x) THEN NegB(x) ELSE 0
\* <<assets, liabs>>: offsetting amounts of one token count at its liability weight
Sheet(I) ==
  LET toks == [k \in 1..Cardinality(I.ts) |-> CHOOSE t \in I.ts : Cardinality({x \in I.ts : x < t}) = k - 1]
      plus(t) == Add(LPos(I.toks[t].bal), SumSeq([k \in DOMAIN I.perps |-> IF I.perps[k].st = t THEN LPos(I.perps[k].h) ELSE 0]))
      minus(t) == Add(LNeg(I.toks[t].bal), SumSeq([k \in DOMAIN I.perps |-> IF I.perps[k].st = t THEN LNeg(I.perps[k].h) ELSE 0]))
      lp(t) == FxMul(I.toks[t].lw, I.toks[t].lp)
      ap(t) == FxMul(I.toks[t].aw, I.toks[t].ap)
      asset(t) == IF Ge(plus(t), minus(t)) THEN Add(FxMul(minus(t), lp(t)), FxMul(Sub(plus(t), minus(t)), ap(t))) ELSE FxMul(plus(t), lp(t))
      eff == TLCEval([t \in I.ts |-> EffBal(I, t, FALSE)])
      spot == TLCEval([k \in DOMAIN I.spots |-> SpotContrib(I, eff, k)])
  IN <<Add(SumSeq([k \in DOMAIN toks |-> asset(toks[k])]), SumSeq([k \in DOMAIN spot |-> LPos(spot[k])])),
       Add(SumSeq([k \in DOMAIN toks |-> FxMul(minus(toks[k]), lp(toks[k]))]), SumSeq([k \in DOMAIN spot |-> LNeg(spot[k])]))>>
KindTy(k) == IF k \in {0, 1} THEN "m" ELSE IF k \in {2, 3} THEN "i" ELSE "e"
IsRatio(k) == k % 2 = 1
\* does the account's value reach the demanded minimum?  dir: allowance given to (1) or taken from (-1) it
Meets(s, a, kind, min, dir) ==
  LET I == HInfo(s, a, KindTy(kind), TRUE, NoAdj)
      h == HealthOf(I, FALSE)  tol == IF dir = 1 THEN HTol(h[2]) ELSE NegB(HTol(h[2])) IN
  IF ~IsRatio(kind) THEN Ge(Add(h[1], tol), min)
  ELSE LET sh == Sheet(I) IN
       IF ~IsPos(Add(sh[2], tol)) THEN TRUE
       ELSE IF ~IsPos(sh[2]) THEN TRUE
       ELSE Ge(Mul(Add(Sub(sh[1], sh[2]), tol), FxInt(100)), Mul(min, Sub(sh[2], tol)))
----------------------------------------------------------------------------
C21_Begin(i, L) ==
  LET a == L.op.a  pre == L.pre  post == L.post
      h == HealthX(pre, a, "i", FALSE, NoAdj) IN
  /\ Rule(i, "C21 a region starts inside a transaction of several instructions", L.sub = 1)
  /\ Rule(i, "C21 regions do not nest", Acc(pre, a).hr = 0)
  /\ Rule(i, "C21 a region marks the account and notes its health",
       /\ Acc(post, a).hr = 1
       \* rounded up: a region never lets more through than the health it began with
       /\ Ge(Acc(post, a).hrh, FxCeil(Sub(h[1], HTol(h[2])))) /\ Le(Acc(post, a).hrh, FxCeil(Add(h[1], HTol(h[2])))))
  /\ Rule(i, "C21 no region while being liquidated", ~StillLiquidated(pre, a, FALSE) /\ Acc(post, a).bl = 0)
  /\ Rule(i, "C21 a region's begin and end change nothing else",
       /\ Changed(Acc(pre, a), Acc(post, a)) \subseteq {"hr", "hrh", "bl"}
       /\ \A b \in AllAccs(pre) : b = a \/ pre.A[b + 1] = post.A[b + 1]
       /\ pre.B = post.B /\ pre.P = post.P /\ pre.W = post.W)
C21_End(i, L) ==
  LET a == L.op.a  pre == L.pre  post == L.post
      h == HealthX(pre, a, "i", FALSE, NoAdj) IN
  /\ Rule(i, "C21 only an open region is ended", Acc(pre, a).hr = 1)
  /\ Rule(i, "C21 the end closes the region", Acc(post, a).hr = 0 /\ Eq(Acc(post, a).hrh, 0))
  /\ Rule(i, "C21 a region's account ends healthy or no worse than it began", PostOk(FxInt(Acc(pre, a).hrh), h[1], HTol(h[2])))
  /\ Rule(i, "C21 a region's begin and end change nothing else",
       /\ Changed(Acc(pre, a), Acc(post, a)) \subseteq {"hr", "hrh"}
       /\ \A b \in AllAccs(pre) : b = a \/ pre.A[b + 1] = post.A[b + 1]
       /\ pre.B = post.B /\ pre.P = post.P /\ pre.W = post.W)
C21_Ok(i, L) ==
  LET op == L.op  n == op.op  pre == L.pre  post == L.post IN
  CASE n = "region_begin" -> C21_Begin(i, L)
    [] n = "region_end" -> C21_End(i, L)
    [] n = "seq_check" ->
         /\ Rule(i, "C21 a sequence check passes only with the right number", Eq(op.n, Acc(pre, op.a).sq))
         /\ Rule(i, "C21 a sequence check moves the number on by one",
              /\ Acc(post, op.a).sq = (Acc(pre, op.a).sq + 1) % 256
              /\ Changed(Acc(pre, op.a), Acc(post, op.a)) \subseteq {"sq"})
    [] n = "health_check" ->
         /\ Rule(i, "C21 a health check passes only when the minimum is met",
              Computable(pre, op.a, TRUE) /\ Meets(pre, op.a, op.kind, op.min.f48, 1))
         /\ Rule(i, "C21 a health check changes nothing", pre = post)
    [] OTHER -> TRUE
\* inside an open region only the allowed kinds of instructions run, and they do not judge health
C21_Inside(i, L) ==
  LET open == {a \in Accs(L.pre) : Acc(L.pre, a).hr = 1} IN
  (open # {} /\ L.op.op # "batch") =>
    /\ Rule(i, "C21 only allowed instructions run inside a region", L.op.op \in Inner \cup {"region_end"})
    /\ (L.ok = 0 /\ "a" \in DOMAIN L.op /\ L.op.op # "region_end") => \/ L.op.a \notin open
         \/ Rule(i, "C21 inside a region health is not yet judged", L.code \notin {6006, 6007, 6016})
    /\ (L.op.op # "region_end") =>
         Rule(i, "C21 no second region opens inside one", \A a \in Accs(L.post) : Acc(L.post, a).hr = 1 => (a \in open))
C21_Fail(i, L) ==
  LET op == L.op  pre == L.pre IN
  /\ (L.code = 6071) => Rule(i, "C21 the sequence check is refused only with another number", op.op = "seq_check" /\ Ne(op.n, Acc(pre, op.a).sq))
  /\ (L.code = 6072) => Rule(i, "C21 the health check is refused only below the minimum",
                            op.op = "health_check" /\ Computable(pre, op.a, TRUE) /\ ~Meets(pre, op.a, op.kind, op.min.f48, -1))
  /\ (L.code = 6007 /\ op.op = "region_end") =>
       LET h == HealthX(pre, op.a, "i", FALSE, NoAdj) IN
       Rule(i, "C21 a region's end is refused for health only when it is worse",
            Lt(Sub(h[1], HTol(h[2])), 0) /\ Lt(h[1], Add(FxInt(Acc(pre, op.a).hrh), HTol(h[2]))))
C21_Batch(i, L) ==
  LET ops == L.op.ops  at == L.x.at + 1 IN
  /\ \A j \in DOMAIN ops : (ops[j].op = "region_begin" /\ (L.ok = 1 \/ j < at)) =>
       Rule(i, "C21 a region ends in the same transaction and contains only permitted instructions", WellFormed(ops, j) /\ Closed(ops, j))
  /\ (L.code = 6045) => Rule(i, "C21 a region is refused for its instructions only when they are not permitted",
       at \in DOMAIN ops /\ ops[at].op = "region_begin" /\ ~WellFormed(ops, at))
  /\ (L.ok = 1) => \A j \in DOMAIN ops : (ops[j].op = "via_proxy") =>
       Rule(i, "C21 no region through another program", ops[j].inner.op # "region_begin")
C21_Line(i) ==
  LET L == Trace[i]  op == L.op IN
  /\ (op.op = "batch") => C21_Batch(i, L)
  /\ (L.ok = 1 /\ op.op = "via_proxy") => Rule(i, "C21 no region through another program", op.inner.op # "region_begin")
  /\ (L.ok = 1 /\ op.op # "batch") => C21_Ok(i, L)
  /\ C21_Inside(i, L)
  /\ (L.ok = 0 /\ op.op # "batch") => C21_Fail(i, L)
  /\ (L.ok = 1 /\ L.sub = 0) =>
       Rule(i, "C21 no region outlives its transaction", \A a \in Accs(L.post) : Acc(L.post, a).hr = 0 /\ Eq(Acc(L.post, a).hrh, 0))
  /\ (L.ok = 1 /\ op.op \notin {"batch", "init", "region_begin", "region_end", "via_proxy"} /\ L.pre.A # L.post.A) =>
       \A a \in Accs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ a \in Accs(L.post) /\ Acc(L.post, a).num = Acc(L.pre, a).num) =>
         Rule(i, "C21 only a region's begin and end touch its mark", RegionField(Acc(L.pre, a), Acc(L.post, a)) = {})
  /\ (L.ok = 1 /\ op.op \notin {"batch", "init", "seq_check", "via_proxy", "account_create", "account_close"} /\ L.pre.A # L.post.A) =>
       \A a \in Accs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ a \in Accs(L.post)) =>
         Rule(i, "C21 only a sequence check moves the sequence number", "sq" \notin Changed(Acc(L.pre, a), Acc(L.post, a)))
=============================================================================
