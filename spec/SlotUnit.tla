------------------------------ MODULE SlotUnit ------------------------------
(* One account by itself: its slots, sizes, fee counters and flags. A call is a
   function of the slots before; a failing call changes nothing.
   Slots are compact: tp <<token, uses, amount>>, s3 <<market, tag>>,
   pp <<market, base, quote, bids, asks, taker base, taker quote>>,
   oo <<market, kind, client id, id, lots>>, cs <<in use, id>>.                  *)
EXTENDS Mango
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
TFree == <<-1, 0, 0>>   SFree == <<-1, 0>>   PFree == <<-1, 0, 0, 0, 0, 0, 0>>   OFree == <<-1, 0, 0, 0, 0>>   CFree == <<0, 0>>
\* first position of s with P, or 0
First(s, P(_)) == LET S == {k \in DOMAIN s : P(s[k])} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : k <= j
At(s, x) == First(s, LAMBDA y : y[1] = x)
Free(s) == First(s, LAMBDA y : y[1] = -1)
Done(a, r) == [a |-> a, e |-> 0, res |-> r]
Fail(a, e) == [a |-> a, e |-> e, res |-> << >>]
B01(b) == IF b THEN 1 ELSE 0
Put(a, f, k, v) == [a EXCEPT ![f] = [@ EXCEPT ![k] = v]]
ActiveBefore(a, k) == Cardinality({j \in 1..(k - 1) : a.tp[j][1] # -1})
EnsureTok(a, t) ==
  LET k == IF At(a.tp, t) # 0 THEN At(a.tp, t) ELSE Free(a.tp) IN
  IF k = 0 THEN Fail(a, 6011)
  ELSE Done(IF At(a.tp, t) # 0 THEN a ELSE Put(a, "tp", k, <<t, 0, 0>>), <<k - 1, ActiveBefore(a, k)>>)
BumpTok(a, k, d) == [a EXCEPT !.tp = [@ EXCEPT ![k] = <<@[1], IF @[2] + d < 0 THEN 0 ELSE @[2] + d, @[3]>>]]
\* everything of a kind that is in use moves to the front, in order; what is new is free
Compact(s, n, free) ==
  LET act == SelectSeq(s, LAMBDA x : x[1] # free[1]) IN [k \in 1..n |-> IF k <= Len(act) THEN act[k] ELSE free]
Active(s, free) == Cardinality({k \in DOMAIN s : s[k][1] # free})
LastOf(s) == LET S == {k \in DOMAIN s : s[k][1] # -1} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
HAccs(z) == 2 * z[1] + z[2] + 2 * z[3]
SizesOf(a) == <<Len(a.tp), Len(a.s3), Len(a.pp), Len(a.oo), Len(a.cs)>>
Space(z) == 520 + 184 * z[1] + 120 * z[2] + 304 * z[3] + 96 * z[4] + 200 * z[5]
MayResize(a, z) ==
  LET o == SizesOf(a) IN
  /\ (HAccs(z) <= HAccs(o) \/ HAccs(z) <= 28) /\ (z[4] <= o[4] \/ z[4] <= 64) /\ (z[5] <= o[5] \/ z[5] <= 64)
  /\ Active(a.tp, -1) <= z[1] /\ Active(a.s3, -1) <= z[2] /\ Active(a.pp, -1) <= z[3] /\ LastOf(a.oo) <= z[4] /\ Active(a.cs, 0) <= z[5]
Resized(a, z) ==
  [tp |-> Compact(a.tp, z[1], TFree), s3 |-> Compact(a.s3, z[2], SFree), pp |-> Compact(a.pp, z[3], PFree),
   oo |-> [k \in 1..z[4] |-> IF k <= Len(a.oo) THEN a.oo[k] ELSE OFree], cs |-> Compact(a.cs, z[5], CFree)]
\* lots of an order leave the position's tracking; the slot follows if it still is that order's
Lots(P, ask, q) == IF ask = 1 THEN [P EXCEPT ![5] = @ + q] ELSE [P EXCEPT ![4] = @ + q]
OfOrder(a, k, m, id) == k + 1 \in DOMAIN a.oo /\ a.oo[k + 1][1] = m /\ (Eq(id, 0) \/ Eq(a.oo[k + 1][4], id))
Call(a, f, x) ==
  CASE f = "tok_ensure" -> EnsureTok(a, x.t)
    [] f = "tok_find" -> IF At(a.tp, x.t) = 0 THEN Fail(a, 6028) ELSE Done(a, <<At(a.tp, x.t) - 1>>)
    [] f = "tok_off" -> CASE x.k + 1 \notin DOMAIN a.tp \/ a.tp[x.k + 1][1] = -1 -> Fail(a, 6028) [] OTHER -> IF a.tp[x.k + 1][2] > 0 THEN Fail(a, -1) ELSE Done(Put(a, "tp", x.k + 1, TFree), << >>)
    [] f = "tok_use" -> IF x.k + 1 \notin DOMAIN a.tp \/ a.tp[x.k + 1][1] = -1 THEN Fail(a, 6028)
                        ELSE LET b == BumpTok(a, x.k + 1, IF x.up = 1 THEN 1 ELSE -1) IN Done(b, <<B01(b.tp[x.k + 1][2] > 0)>>)
    [] f = "tok_set" -> IF At(a.tp, x.t) = 0 THEN Fail(a, 6028) ELSE Done([a EXCEPT !.tp = [@ EXCEPT ![At(a.tp, x.t)] = <<@[1], @[2], x.x>>]], << >>)
    [] f = "s3_new" -> CASE At(a.s3, x.m) # 0 -> Fail(a, 6014) [] Free(a.s3) = 0 -> Fail(a, 6012) [] OTHER -> Done(Put(a, "s3", Free(a.s3), <<x.m, 0>>), << >>)
    [] f = "s3_off" -> IF At(a.s3, x.m) = 0 THEN Fail(a, 6000) ELSE Done(Put(a, "s3", At(a.s3, x.m), SFree), << >>)
    [] f = "s3_set" -> IF At(a.s3, x.m) = 0 THEN Fail(a, 6000) ELSE Done(Put(a, "s3", At(a.s3, x.m), <<x.m, x.x>>), << >>)
    [] f = "perp_ensure" ->
         CASE At(a.pp, x.m) # 0 -> Done(a, <<At(a.pp, x.m) - 1>>)
           [] Free(a.pp) = 0 -> Fail(a, 6013)
           [] OTHER -> LET T == EnsureTok(a, x.t) IN
                       IF T.e # 0 THEN Fail(a, 6011)
                       ELSE Done(Put(BumpTok(T.a, T.res[1] + 1, 1), "pp", Free(a.pp), [PFree EXCEPT ![1] = x.m]), <<Free(a.pp) - 1>>)
    [] f = "perp_off" -> CASE At(a.pp, x.m) = 0 -> Fail(a, 6020) [] At(a.tp, x.t) = 0 -> Fail(a, 6028)
                           [] OTHER -> Done(BumpTok(Put(a, "pp", At(a.pp, x.m), PFree), At(a.tp, x.t), -1), << >>)
    [] f = "perp_set" -> IF At(a.pp, x.m) = 0 THEN Fail(a, 6020) ELSE Done(Put(a, "pp", At(a.pp, x.m), [a.pp[At(a.pp, x.m)] EXCEPT ![6] = x.tb, ![7] = x.tq]), << >>)
    [] f = "order_add" -> CASE Free(a.oo) = 0 -> Fail(a, 6000) [] At(a.pp, x.m) = 0 -> Fail(a, 6020)
                            [] OTHER -> LET p == At(a.pp, x.m) IN
                                 Done(Put(Put(a, "oo", Free(a.oo), <<x.m, x.st, x.cid, x.id, x.q>>), "pp", p, Lots(a.pp[p], x.st % 2, x.q)), <<Free(a.oo) - 1>>)
    [] f = "order_remove" -> CASE x.k + 1 \notin DOMAIN a.oo -> Fail(a, 2505) [] a.oo[x.k + 1][1] = -1 -> Fail(a, 2503)
                               [] At(a.pp, a.oo[x.k + 1][1]) = 0 -> Fail(a, 6020)
                               [] OTHER -> LET o == a.oo[x.k + 1]  p == At(a.pp, o[1]) IN
                                    Done(Put(Put(a, "oo", x.k + 1, OFree), "pp", p, Lots(a.pp[p], o[2] % 2, -x.q)), << >>)
    [] f = "slot_next" -> IF Free(a.oo) = 0 THEN Fail(a, 6000) ELSE Done(a, <<Free(a.oo) - 1>>)
    [] f = "find_cid" -> Done(a, <<First(a.oo, LAMBDA o : o[1] = x.m /\ Eq(o[3], x.cid)) - 1>>)
    [] f = "find_id" -> Done(a, <<First(a.oo, LAMBDA o : o[1] = x.m /\ Eq(o[4], x.id)) - 1>>)
    [] f \in {"maker", "out"} ->
         IF At(a.pp, x.m) = 0 THEN Fail(a, 6020)
         ELSE LET p == At(a.pp, x.m)
                  P0 == Lots(a.pp[p], x.ask, -x.q)
                  P1 == IF f = "out" THEN P0 ELSE IF x.ask = 1 THEN [P0 EXCEPT ![2] = @ - x.q, ![3] = @ + x.q * x.px] ELSE [P0 EXCEPT ![2] = @ + x.q, ![3] = @ - x.q * x.px]
                  b == Put(a, "pp", p, P1)
                  o == a.oo[x.k + 1]
              IN Done(IF ~OfOrder(a, x.k, x.m, x.id) THEN b
                      ELSE IF f = "out" \/ x.gone = 1 THEN Put(b, "oo", x.k + 1, OFree)
                      ELSE Put(b, "oo", x.k + 1, [o EXCEPT ![5] = IF @ > x.q THEN @ - x.q ELSE 0]), << >>)
    [] f = "taker" ->
         IF At(a.pp, x.m) = 0 THEN Fail(a, 6020)
         ELSE LET p == At(a.pp, x.m)  s == IF x.ask = 1 THEN -1 ELSE 1 IN
              Done(Put(a, "pp", p, [a.pp[p] EXCEPT ![2] = @ + s * x.q, ![3] = @ - s * x.q * x.px, ![6] = @ - s * x.q, ![7] = @ + s * x.q * x.px]), << >>)
    [] f = "unused" -> LET k == First(a.pp, LAMBDA P : P[1] # -1 /\ \A j \in 2..7 : P[j] = 0) IN Done(a, <<IF k = 0 THEN -1 ELSE a.pp[k][1]>>)
    [] f = "tcs_free" -> LET k == First(a.cs, LAMBDA c : c[1] = 0) IN IF k = 0 THEN Fail(a, 6000) ELSE Done(a, <<k - 1>>)
    [] f = "tcs_set" -> LET k == First(a.cs, LAMBDA c : c[1] = 0) IN IF k = 0 THEN Fail(a, 6000) ELSE Done(Put(a, "cs", k, <<1, x.id>>), << >>)
    [] f = "tcs_off" -> IF x.k + 1 \notin DOMAIN a.cs THEN Fail(a, 2505) ELSE Done(Put(a, "cs", x.k + 1, CFree), << >>)
    [] f = "tcs_by_id" -> LET k == First(a.cs, LAMBDA c : c[1] = 1 /\ c[2] = x.id) IN IF k = 0 THEN Fail(a, 6000) ELSE Done(a, <<k - 1>>)
    [] f = "tcs_by_index" -> IF x.k + 1 \notin DOMAIN a.cs THEN Fail(a, 2505) ELSE Done(a, <<a.cs[x.k + 1][1]>>)
    [] f = "resize" -> IF MayResize(a, x.z) THEN Done(Resized(a, x.z), <<Space(x.z), 1>>) ELSE Fail(a, 2506)
SlotCalls == {"tok_ensure", "tok_find", "tok_off", "tok_use", "tok_set", "s3_new", "s3_off", "s3_set", "perp_ensure", "perp_off", "perp_set", "order_add", "order_remove",
              "slot_next", "find_cid", "find_id", "maker", "out", "taker", "unused", "tcs_free", "tcs_set", "tcs_off", "tcs_by_id", "tcs_by_index", "resize"}
SlotRules(c, what) ==
  LET x == TLCEval(Call(c.a, c.f, c.args)) IN
  \* which error is not laid down here, only whether there is one
  /\ Rule(l, what \o ": succeeds or fails as specified", (c.e = 0) = (x.e = 0))
  /\ Rule(l, what \o ": the slots after", Same(c.a2, x.a))
  /\ (x.e = 0 /\ c.e = 0 /\ x.res # << >>) => Rule(l, what \o ": the answer", Same(c.res, x.res))
C14_Inv ==
  LET c == Trace[l] IN
  c.f \in SlotCalls => SlotRules(c, "C14 slots " \o c.f)
\* the calls that carry fills and orders
C11_Inv ==
  LET c == Trace[l] IN
  c.f \in {"order_add", "order_remove", "maker", "out", "taker", "find_cid", "find_id", "slot_next", "perp_ensure", "resize"} => SlotRules(c, "C11 slots " \o c.f)
\* health decisions
C03_Inv ==
  LET c == Trace[l]  x == c.args IN
  /\ c.f = "post" => Rule(l, "C03 account: actions must leave health positive or no worse",
       (c.res[1] = 0) = \/ Ge(x.h1, 0)
                        \/ IF Lt(x.h1, Mul(-1000, One)) THEN Ge(FxCeil(x.h1), FxCeil(x.h0)) ELSE Ge(x.h1, x.h0))
  /\ c.f = "strict" => Rule(l, "C03 account: strictly positive health", (c.res[1] = 0) = Ge(x.h1, 0))
  /\ c.f = "recover" => Rule(l, "C03 account: liquidation ends above minus one unit",
       LET r == x.bl = 1 /\ Gt(x.h1, NegB(One)) IN c.res[1] = B01(r) /\ c.bl2 = (IF r THEN 0 ELSE x.bl))
\* buyback fee counters: <<current, previous, expiry>>
C20_Inv ==
  LET c == Trace[l]  x == c.args  a == c.a IN
  /\ c.f = "fee_expire" => Rule(l, "C20 account: accrued fees age by intervals",
       Same(c.a2, IF Eq(x.iv, 0) \/ Lt(x.now, a[3]) THEN a
                  ELSE <<0, IF Lt(x.now, Add(a[3], x.iv)) THEN a[1] ELSE 0, Mul(Add(FDiv(x.now, x.iv), 1), x.iv)>>))
  /\ c.f = "fee_accrue" => Rule(l, "C20 account: fees accrue to the current interval", Same(c.a2, <<Min(Add(a[1], x.n), U64Max), a[2], a[3]>>))
  /\ c.f = "fee_reduce" => Rule(l, "C20 account: the older fees are used first, never more than accrued",
       IF Gt(x.n, Add(a[1], a[2])) THEN c.res[1] = -1
       ELSE c.res[1] = 0 /\ Same(c.a2, <<Sub(a[1], Max(0, Sub(x.n, a[2]))), Max(0, Sub(a[2], x.n)), a[3]>>))
  /\ c.f \in {"fee_expire", "fee_accrue"} => Rule(l, "C20 account: usable fees", Eq(c.sum, Min(Add(c.a2[1], c.a2[2]), U64Max)))
=============================================================================
