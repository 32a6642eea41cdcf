-------------------------------- MODULE C18 --------------------------------
(* Conditional swaps: executed when triggered, at the agreed price, in limits. *)
EXTENDS Fees
P64 == "18446744073709551616"
Fixed18 == 0   Auction == 1   Linear == 2
StartIncentive == 1000
Expired18(c, now) == Ge(now, c.exp)
Started(c, now) == Gt(c.start, 0) /\ Ge(now, c.start)
Startable(c) == Eq(c.ty, Auction)
\* sell token per buy token, scaled by 2^64
BasePx(s, c) == FDiv(Shl(TPrice(s, c.bi), 64), TPrice(s, c.si))
InRange(c, px, eps) == Ge(Add(px, eps), c.lo) /\ Le(px, Add(c.hi, eps))
PremiumPx(c, px, now) ==
  CASE Eq(c.ty, Fixed18) -> FDiv(Mul(px, Add(P64, c.pr)), P64)
    [] Eq(c.ty, Auction) ->
         LET cur == IF Gt(c.start, 0) THEN Sub(now, c.start) ELSE 0
             k == Min(cur, c.dur)
         IN FDiv(Mul(px, Add(Mul(P64, c.dur), Mul(c.pr, k))), Mul(P64, c.dur))
    [] OTHER ->
         LET cur == Sub(now, c.start) IN
         IF Ge(cur, c.dur) THEN c.hi ELSE Add(c.lo, FDiv(Mul(Sub(c.hi, c.lo), cur), c.dur))
MakerPx(c, p) == FDiv(Mul(p, Add(One, c.mf)), One)
TakerPx(c, p) == FDiv(Mul(p, Sub(One, c.tf)), One)
\* 2^64 to 2^48 with the nearest neighbours: what double arithmetic may make of it
Fx64(p) == LET m == Shr(Add(p, 32768), 16)  e == Add(1, Shr(p, 64)) IN {Sub(m, e), Sub(m, 1), m, Add(m, 1), Add(m, e)}
RoN(bk) == bk.ro # 0              \* no borrows
RoD(bk) == bk.ro = 1              \* no deposits
ClampU(x) == Max(0, Min(x, U64Max))
MaxBuy(c, bal, bk) == Min(Sub(c.xb, c.b), IF c.ad = 1 /\ ~RoD(bk) THEN U64Max ELSE ClampU(FxCeil(NegB(bal))))
MaxSell(c, bal, bk) == Min(Sub(c.xs, c.s), IF c.ab = 1 /\ ~RoN(bk) THEN U64Max ELSE ClampU(FxFloor(bal)))
\* <<bought, sold>> at price p for at most mb and ms
TradeIn(mb, ms, p) ==
  LET bfs == IF Gt(p, One) THEN FxFloor(FxDiv(Sub(Add(FxInt(ms), One), 1), p))
             ELSE FxCeil(FxDiv(Min(FxInt(FxFloor(FxMul(FxInt(mb), p))), FxInt(ms)), p))
      buy == Min(mb, bfs)
      sell == Min(ms, FxFloor(FxMul(FxInt(buy), p)))
  IN <<buy, sell>>
\* a withdrawal and deposit between two positions of one bank: <<bank, from, to>>
Transfer(bk, x, xUse, amt, y, yUse, amt2, now) ==
  LET w == IF Eq(amt, 0) THEN [bk |-> bk, x |-> x] ELSE BankWithdraw(bk, x, amt, TRUE, ~xUse, now)
      d == IF Eq(amt2, 0) THEN [bk |-> w.bk, x |-> y] ELSE BankDeposit(w.bk, y, amt2, ~yUse, now)
  IN <<d.bk, w.x, d.x>>
Use(A, t) == IF HasTok(A, t) THEN TPos(A, t).u ELSE 0
\* a freed position is dusted
Dust(bk, x, use) ==
  LET n == Native(x, bk) IN
  IF use > 0 \/ IsNeg(n) \/ Ge(n, One) THEN <<bk, x>>
  ELSE <<[bk EXCEPT !.dust = Add(@, n), !.id = Sub(@, Max(x, 0))], 0>>
Cleared(c) == c.on = 0
OthersKept(A, B, j) == \A k \in DOMAIN A.cs : k = j \/ Same(A.cs[k], B.cs[k])
Health18(i, L, c) == TRUE
SwapFrame(i, L, accs, toks) ==
  Rule(i, "C18 a swap concerns two tokens of two accounts",
       /\ \A a \in AllAccs(L.pre) : a \in accs \/ L.pre.A[a + 1] = L.post.A[a + 1]
       /\ \A t \in Toks(L.pre) : t \in toks \/ (L.pre.B[t + 1] = L.post.B[t + 1] /\ \A a \in accs : Eq(TIdx(Acc(L.pre, a), t), TIdx(Acc(L.post, a), t)))
       /\ \A t \in Toks(L.pre) : \A b \in 1..NBank(L.pre, t) : b = 1 \/ L.pre.B[t + 1][b] = L.post.B[t + 1][b]
       /\ \A a \in accs : Same(Acc(L.pre, a).pp, Acc(L.post, a).pp) /\ Same(Acc(L.pre, a).s3, Acc(L.post, a).s3)
       /\ \A a \in AllAccs(L.pre) : L.pre.W[a + 1] = L.post.W[a + 1])
C18_Expired(i, L, c) ==
  LET op == L.op  j == op.i + 1  A == Acc(L.pre, op.a)  B == Acc(L.post, op.a)
      db == Dust(Bank0(L.pre, c.bi), TIdx(A, c.bi), Use(A, c.bi) - 1)
      ds == Dust(Bank0(L.pre, c.si), TIdx(A, c.si), Use(A, c.si) - 1) IN
  /\ Rule(i, "C18 an expired swap is removed without trading", Cleared(B.cs[j]) /\ OthersKept(A, B, j)
          /\ Eq(TIdx(B, c.bi), db[2]) /\ Eq(TIdx(B, c.si), ds[2]) /\ LedgerEq(Bank0(L.post, c.bi), db[1]) /\ LedgerEq(Bank0(L.post, c.si), ds[1]))
  /\ Rule(i, "C18 expired swaps buy nothing", Eq(G(op, "min_buy", 0), 0))
  /\ SwapFrame(i, L, {op.a}, {c.bi, c.si})
C18_Trigger(i, L, c) ==
  LET op == L.op  pre == L.pre  post == L.post  now == pre.now  j == op.i + 1
      A == Acc(pre, op.a)  B == Acc(post, op.a)  Q == Acc(pre, op.l)  R == Acc(post, op.l)
      bb == Bank0(pre, c.bi)  sb == Bank0(pre, c.si)  bb2 == Bank0(post, c.bi)  sb2 == Bank0(post, c.si)
      px == TLCEval(BasePx(pre, c))  prem == TLCEval(PremiumPx(c, px, now))  maker == TLCEval(MakerPx(c, prem))
      eps == Add(65536, Shr(px, 44))
      mb == Min(Min(op.mb, MaxBuy(c, Native(TIdx(A, c.bi), bb), bb)), IF RoN(bb) THEN ClampU(FxFloor(Native(TIdx(Q, c.bi), bb))) ELSE U64Max)
      ms == Min(Min(op.ms, MaxSell(c, Native(TIdx(A, c.si), sb), sb)), IF RoD(sb) THEN ClampU(FxCeil(NegB(Native(TIdx(Q, c.si), sb)))) ELSE U64Max)
      \* possible outcomes of trade sizing: <<bought, paid by the user, sold without maker fee>>
      outs == TLCEval({<<TradeIn(mb, ms, p)[1], TradeIn(mb, ms, p)[2], FxFloor(FxMul(FxInt(TradeIn(mb, ms, p)[1]), q))>> : p \in Fx64(maker), q \in Fx64(prem)})
      closed == Cleared(B.cs[j])
      \* what each outcome books
      Book(o) ==
        LET tfee == FxFloor(FxMul(FxInt(o[3]), c.tf))
            tb == Transfer(bb, TIdx(Q, c.bi), InUseTok(Q, c.bi), FxInt(o[1]), TIdx(A, c.bi), InUseTok(A, c.bi), FxInt(o[1]), now)
            ts == Transfer(sb, TIdx(A, c.si), InUseTok(A, c.si), FxInt(o[2]), TIdx(Q, c.si), InUseTok(Q, c.si), FxInt(Sub(o[3], tfee)), now)
            sbf == [ts[1] EXCEPT !.fee = Add(@, FxInt(Add(Sub(o[2], o[3]), tfee)))]
            db == IF closed THEN Dust(tb[1], tb[3], Use(A, c.bi) - 1) ELSE <<tb[1], tb[3]>>
            ds == IF closed THEN Dust(sbf, ts[2], Use(A, c.si) - 1) ELSE <<sbf, ts[2]>>
        IN [bb |-> db[1], sb |-> ds[1], xb |-> db[2], xs |-> ds[2], yb |-> tb[2], ys |-> ts[3],
            nb |-> Native(tb[3], tb[1]), ns |-> Native(ts[2], sbf)]
      Booked(o) == LET K == Book(o) IN
        /\ LedgerEq(bb2, K.bb) /\ LedgerEq(sb2, K.sb) /\ Eq(TIdx(B, c.bi), K.xb) /\ Eq(TIdx(B, c.si), K.xs)
        /\ Eq(TIdx(R, c.bi), K.yb) /\ Eq(TIdx(R, c.si), K.ys)
      real == {o \in outs : Booked(o)}
      D == B.cs[j]
      h0 == HealthX(pre, op.a, "i", FALSE, NoAdj)
      h1 == HealthX(post, op.a, "i", FALSE, [t \in {c.bi, c.si} |-> 0])
      tol == Add(HTol(h0[2]), HTol(h1[2]))
  IN
  /\ Rule(i, "C18 executed only while unexpired, started and in range",
       /\ ~Expired18(c, now)
       /\ IF Eq(c.ty, Fixed18) THEN InRange(c, px, eps) ELSE Started(c, now))
  /\ Rule(i, "C18 the caller's minimum price is met", Ge(Add(TakerPx(c, prem), eps), IF "min_px" \in DOMAIN op THEN op.min_px.f32x64 ELSE 0))
  /\ Rule(i, "C18 amounts, price and both fees are as agreed", real # {})
  /\ real # {} => LET o == CHOOSE x \in real : TRUE  K == Book(o)
                      nc == [c EXCEPT !.b = Add(@, o[1]), !.s = Add(@, o[2]), !.start = IF Started(c, now) THEN @ ELSE now]
                      fut == {TradeIn(MaxBuy(nc, K.nb, bb), MaxSell(nc, K.ns, sb), p) : p \in Fx64(maker)}
                      steps == {FDiv(Add(maker, d), P64) : d \in {NegB(eps), 0, eps}}
                      isteps == {IF Gt(Add(maker, d), 0) THEN FDiv(Mul(P64, P64), Mul(Add(maker, d), P64)) ELSE 0 : d \in {NegB(eps), 0, eps}}
                      Small(f) == Eq(f[1], 0) \/ Eq(f[2], 0)
                      MaybeSmall == \E f \in fut : Small(f) \/ (\E x \in steps : Gt(maker, Sub(P64, eps)) /\ Lt(f[2], Mul(2, x))) \/ (\E x \in isteps : Le(maker, Add(P64, eps)) /\ Lt(f[1], Mul(2, x)))
                      SureSmall == \A f \in fut : Small(f) \/ (Gt(maker, Add(P64, eps)) /\ \A x \in steps : Lt(f[2], Mul(2, x))) \/ (Lt(maker, Sub(P64, eps)) /\ \A x \in isteps : Lt(f[1], Mul(2, x)))
                      MaybeLow == ~(Eq(o[1], 0) /\ Eq(o[2], 0)) /\ Lt(h1[1], Add(h0[1], tol)) /\ Lt(h1[1], Add(FxInt(1000000), tol))
                      SureLow == Lt(Add(h1[1], tol), h0[1]) /\ Lt(Add(h1[1], tol), FxInt(1000000))
                  IN
       /\ Rule(i, "C18 totals never exceed the maxima", Le(nc.b, nc.xb) /\ Le(nc.s, nc.xs))
       /\ Rule(i, "C18 the caller's minimum amount is met", Ge(o[1], G(op, "min_buy", 0)))
       /\ Rule(i, "C18 never something for nothing", Eq(o[1], 0) = Eq(o[2], 0))
       /\ Rule(i, "C18 no disallowed deposit", c.ad = 1 \/ Lt(Native(TIdx(B, c.bi), bb2), One) \/ Eq(o[1], 0))
       /\ Rule(i, "C18 no disallowed borrow", c.ab = 1 \/ ~IsNeg(TIdx(B, c.si)) \/ Eq(o[2], 0))
       /\ Rule(i, "C18 tallies and start are kept", closed \/ Same(D, nc))
       /\ Rule(i, "C18 removed when complete", SureSmall => closed)
       /\ Rule(i, "C18 removed when the user's health runs out", SureLow => closed)
       /\ Rule(i, "C18 not removed before", closed => MaybeSmall \/ MaybeLow)
  /\ Rule(i, "C18 other swaps are kept", OthersKept(A, B, j) /\ Same(Q.cs, R.cs))
  /\ Rule(i, "C18 the user ends healthy or no worse off", PostOk(h0[1], h1[1], tol))
  /\ Rule(i, "C18 the user is not being liquidated", ~StillLiquidated(pre, op.a, FALSE))
  /\ Rule(i, "C18 the caller ends healthy", LET h == HealthG(post, op.l, "i") IN Ge(Add(h[1], HTol(h[2])), 0))
  /\ Rule(i, "C18 two different accounts", op.a # op.l /\ Q.bl = 0)
  /\ SwapFrame(i, L, {op.a, op.l}, {c.bi, c.si})
C18_Start(i, L, c) ==
  LET op == L.op  pre == L.pre  post == L.post  now == pre.now  j == op.i + 1
      A == Acc(pre, op.a)  B == Acc(post, op.a)  Q == Acc(pre, op.l)  R == Acc(post, op.l)
      sb == Bank0(pre, c.si)  sb2 == Bank0(post, c.si)
      px == BasePx(pre, c)  eps == Add(65536, Shr(px, 44))
      room == IF Eq(sb.dl, 0) THEN FxInt(U64Max) ELSE Sub(FxInt(sb.dl), Add(FxMul(sb.di, Add(sb.id, 1)), FxInt(sb.pst)))
      inc == Max(0, Min(Min(FxDiv(FxInt(StartIncentive), TPrice(pre, c.si)), FxInt(Sub(c.xs, c.s))), room))
      T == Transfer(sb, TIdx(A, c.si), InUseTok(A, c.si), inc, TIdx(Q, c.si), InUseTok(Q, c.si), inc, now)
  IN
  /\ Rule(i, "C18 started once, unexpired, in range, when an auction", ~Expired18(c, now) /\ Eq(c.start, 0) /\ Startable(c) /\ InRange(c, px, eps))
  /\ Rule(i, "C18 the start incentive is as agreed", LedgerEq(sb2, T[1]) /\ Eq(TIdx(B, c.si), T[2]) /\ Eq(TIdx(R, c.si), T[3]))
  /\ Rule(i, "C18 the start incentive creates no disallowed borrow", c.ab = 1 \/ ~IsNeg(TIdx(B, c.si)))
  /\ Rule(i, "C18 starting sets the start and counts the incentive", Same(B.cs[j], [c EXCEPT !.start = now, !.s = Add(@, FxFloor(inc))]) /\ Le(B.cs[j].s, c.xs))
  /\ Rule(i, "C18 other swaps are kept", OthersKept(A, B, j) /\ Same(Q.cs, R.cs))
  /\ SwapFrame(i, L, {op.a, op.l}, {c.si})
C18_Create(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  A == Acc(pre, op.a)  B == Acc(post, op.a)
      exp == G(op, "exp", U64Max)
      ch == {k \in DOMAIN B.cs : k \notin DOMAIN A.cs \/ ~Same(A.cs[k], B.cs[k])}
      ty == op.kind
      bb == Bank0(pre, op.bt)  sb == Bank0(pre, op.st) IN
  IF Ge(pre.now, exp) THEN Rule(i, "C18 an expired swap is not created", L.pre.A = L.post.A)
  ELSE
  /\ Rule(i, "C18 exactly one free slot is taken", Cardinality(ch) = 1 /\ \A k \in ch : Cleared(A.cs[k]))
  /\ \A k \in ch : LET c == B.cs[k] IN
       /\ Rule(i, "C18 a swap is recorded as stated",
          /\ c.on = 1 /\ Eq(c.id, A.nid) /\ Eq(c.xb, op.max_buy) /\ Eq(c.xs, op.max_sell) /\ Eq(c.b, 0) /\ Eq(c.s, 0) /\ Eq(c.exp, exp)
          /\ Eq(c.lo, op.lo.f64) /\ Eq(c.hi, op.hi.f64) /\ Eq(c.ty, ty) /\ c.bi = op.bt /\ c.si = op.st /\ op.bt # op.st
          /\ Eq(c.ad, IF G(op, "dep", 0) # 0 THEN 1 ELSE 0) /\ Eq(c.ab, IF G(op, "bor", 0) # 0 THEN 1 ELSE 0)
          /\ Eq(c.pr, IF ty = Linear THEN 0 ELSE op.prem.f64)
          /\ Eq(c.start, IF ty = Linear THEN op.start ELSE 0) /\ Eq(c.dur, IF ty = Fixed18 THEN 0 ELSE op.dur))
       /\ Rule(i, "C18 the higher of both tokens' fees applies", Eq(c.tf, Max(bb.tt, sb.tt)) /\ Eq(c.mf, Max(bb.tm, sb.tm)))
       /\ Rule(i, "C18 prices and rates are not negative", Ge(c.lo, 0) /\ Ge(c.hi, 0) /\ Ge(c.pr, 0) /\ (ty = Fixed18 \/ Ge(c.dur, 1)))
  /\ Rule(i, "C18 both token positions are held", Use(B, op.bt) = Use(A, op.bt) + 1 /\ Use(B, op.st) = Use(A, op.st) + 1)
  /\ Rule(i, "C18 ids are never reused", Eq(B.nid, ModPow2(Add(A.nid, 1), 64)))
  /\ Rule(i, "C18 creating moves nothing", pre.B = post.B /\ pre.W = post.W)
C18_Cancel(i, L) ==
  LET op == L.op  j == op.i + 1  A == Acc(L.pre, op.a)  B == Acc(L.post, op.a)  c == A.cs[j] IN
  IF c.on = 0 THEN Rule(i, "C18 cancelling nothing does nothing", L.pre.A = L.post.A /\ L.pre.B = L.post.B)
  ELSE LET db == Dust(Bank0(L.pre, c.bi), TIdx(A, c.bi), Use(A, c.bi) - 1)
           ds == Dust(Bank0(L.pre, c.si), TIdx(A, c.si), Use(A, c.si) - 1) IN
       /\ Rule(i, "C18 cancelling removes exactly that swap", Eq(c.id, op.id) /\ Cleared(B.cs[j]) /\ OthersKept(A, B, j))
       /\ Rule(i, "C18 cancelling only dusts", Eq(TIdx(B, c.bi), db[2]) /\ Eq(TIdx(B, c.si), ds[2]) /\ LedgerEq(Bank0(L.post, c.bi), db[1]) /\ LedgerEq(Bank0(L.post, c.si), ds[1]))
       /\ SwapFrame(i, L, {op.a}, {c.bi, c.si})
\* refusals have their reason
C18_Fail(i, L, c) ==
  LET op == L.op  pre == L.pre  now == pre.now
      px == BasePx(pre, c)  eps == Add(65536, Shr(px, 44)) IN
  /\ (op.op = "tcs_trigger" /\ Len(L.err) > 5 /\ SubSeq(L.err, 1, 5) = "panic" /\ ~Expired18(c, now) /\ RoD(Bank0(pre, c.si))
      /\ Lt(c.xb, Pow2(45)) /\ Lt(c.xs, Pow2(45)) /\ Lt(Bank0(pre, c.bi).nb, Pow2(55)) /\ Lt(Bank0(pre, c.si).nb, Pow2(55))) =>
       Rule(i, "C18 a token that takes no deposits stops no swap", FALSE)
  /\ L.code = 6050 => Rule(i, "C18 refused as expired only when it is", Expired18(c, now))
  /\ L.code = 6051 => Rule(i, "C18 refused as not started only when it is not", ~Started(c, now) /\ Ne(c.ty, Fixed18))
  /\ L.code = 6052 => Rule(i, "C18 refused as already started only when it is", Ne(c.start, 0))
  /\ L.code = 6057 => Rule(i, "C18 refused for its id only when different", Ne(c.id, op.id))
  /\ L.code = 6059 => Rule(i, "C18 only auctions can be started", ~Startable(c))
  /\ (L.code = 6049 /\ TOk(pre, c.bi) /\ TOk(pre, c.si)) => Rule(i, "C18 refused out of range only when it is", Le(px, Add(c.lo, eps)) \/ Ge(Add(px, eps), c.hi))
  /\ (L.code = 6056 /\ TOk(pre, c.bi) /\ TOk(pre, c.si)) => Rule(i, "C18 refused for the price only when too low",
       Le(TakerPx(c, PremiumPx(c, px, now)), Add(op.min_px.f32x64, eps)))
Swaps18 == {"tcs_trigger", "tcs_start", "tcs_cancel", "tcs_create", "account_expand", "account_create", "account_close", "account_migrate", "batch", "init", "via_proxy"}
C18_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op
      has == n \in {"tcs_trigger", "tcs_start"} /\ Live(L.pre, op.a) /\ (op.i + 1) \in DOMAIN Acc(L.pre, op.a).cs
      on == has /\ Acc(L.pre, op.a).cs[op.i + 1].on = 1
      c == Acc(L.pre, op.a).cs[op.i + 1] IN
  /\ (L.ok = 1 /\ n \in {"tcs_trigger", "tcs_start"}) => Rule(i, "C18 only what is configured is executed", on /\ Eq(c.id, op.id))
  /\ (L.ok = 1 /\ n = "tcs_trigger" /\ on) => IF Expired18(c, L.pre.now) THEN C18_Expired(i, L, c) ELSE C18_Trigger(i, L, c)
  /\ (L.ok = 1 /\ n = "tcs_start" /\ on) => C18_Start(i, L, c)
  /\ (L.ok = 1 /\ n = "tcs_create") => C18_Create(i, L)
  /\ (L.ok = 1 /\ n = "tcs_cancel") => C18_Cancel(i, L)
  /\ (L.ok = 0 /\ on) => C18_Fail(i, L, c)
  /\ (L.ok = 1 /\ n \notin Swaps18 /\ L.pre.A # L.post.A) =>
       \A a \in AllAccs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ Live(L.pre, a) /\ Live(L.post, a)) =>
         Rule(i, "C18 nothing else touches conditional swaps", Same(Acc(L.pre, a).cs, Acc(L.post, a).cs))
=============================================================================
