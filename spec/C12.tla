-------------------------------- MODULE C12 --------------------------------
(* Perp funding. *)
EXTENDS Perp, Edits
FundingSame(x, y) == Within(x.lf, y.lf, 4) /\ Within(x.sf, y.sf, 4) /\ Eq(x.flu, y.flu)
FundOps == {"perp_funding", "perp_place", "perp_peg"}
FundExpect(L) == LET p == L.op.p  s == L.pre IN FundingUpdate(Perp(s, p), Bids(s, p), Asks(s, p), POra(s, p).px, s.now)
PosBoth(L, a, p) == Live(L.pre, a) /\ Live(L.post, a) /\ HasPerp(Acc(L.post, a), p)
OldPos(L, a, p) == PosOrNew(Acc(L.pre, a), p)
C12_Rules(i) ==
  LET L == Trace[i] op == L.op n == op.op pre == L.pre post == L.post IN
  /\ (L.ok = 1 /\ n \in FundOps /\ ~(n # "perp_funding" /\ PastExpiry(op, pre.now))) =>
       LET m == Perp(pre, op.p)  m2 == Perp(post, op.p)  x == FundExpect(L) IN
       /\ Rule(i, "C12 funding is the clamped book premium for the elapsed time", FundingSame(x, m2))
       /\ n = "perp_funding" => Rule(i, "C12 funding needs a valid oracle", POk(pre, op.p))
       /\ n = "perp_funding" => Rule(i, "C12 a funding update changes nothing else", Changed(m, m2) \subseteq {"lf", "sf", "flu", "sp"} /\ pre.A = post.A)
       /\ LET dt == Min(Max(Sub(pre.now, m.flu), 0), MaxFundingStep)
              cap == Add(FundingDelta(m, Max(Abs(m.minf), Abs(m.maxf)), POra(pre, op.p).px, dt), 16)
              d == Sub(m2.lf, m.lf) IN
          Rule(i, "C12 funding stays in the configured bounds and moves both sides alike",
               Le(Abs(d), cap) /\ Eq(d, Sub(m2.sf, m.sf)))
  /\ (L.ok = 1 /\ n \notin FundOps \cup {"init", "batch", "via_proxy"}) =>
     \A p \in Perps(pre) \cap Perps(post) : (pre.P[p + 1] # post.P[p + 1]) =>
       LET m == Perp(pre, p)  m2 == Perp(post, p) IN
       IF n = "perp_liq_neg" /\ op.p = p
         THEN Rule(i, "C12 a socialized loss is charged to both sides alike", Eq(Sub(m2.lf, m.lf), Sub(m.sf, m2.sf)) /\ Eq(m.flu, m2.flu))
         ELSE Rule(i, "C12 no other operation moves funding", Eq(m.lf, m2.lf) /\ Eq(m.sf, m2.sf) /\ Eq(m.flu, m2.flu))
  /\ (L.ok = 1 /\ n \notin {"init", "batch", "via_proxy"}) =>
     \A p \in Perps(pre) \cap Perps(post) : \A a \in AllAccs(post) :
       (pre.A[a + 1] # post.A[a + 1] /\ PosBoth(L, a, p)) =>
       LET x == OldPos(L, a, p)  y == PPos(Acc(post, a), p)  m == Perp(pre, p)
           \* funding owed before, at what was accumulated when it was settled
           owed == UnsettledFunding(x, [m EXCEPT !.lf = y.lf, !.sf = y.sf]) IN
       /\ Ne(x.b, y.b) => Rule(i, "C12 changing a position settles its funding first", Eq(y.lf, m.lf) /\ Eq(y.sf, m.sf))
       /\ (Ne(x.lf, y.lf) \/ Ne(x.sf, y.sf)) =>
            /\ Rule(i, "C12 a position settles up to the market's funding", Eq(y.lf, m.lf) /\ Eq(y.sf, m.sf))
            /\ Rule(i, "C12 a position pays exactly its side's accumulated funding",
                 LET paid == IF IsPos(x.b) THEN Sub(y.clf, x.clf) ELSE Sub(x.csf, y.csf)
                     other == IF IsPos(x.b) THEN Eq(x.csf, y.csf) ELSE Eq(x.clf, y.clf)
                 IN other /\ Near(paid, owed, 1, 2048))
       /\ (Eq(x.lf, y.lf) /\ Eq(x.sf, y.sf)) => Rule(i, "C12 no funding is paid without being settled", Eq(x.clf, y.clf) /\ Eq(x.csf, y.csf))
C12_Line(i) ==
  LET L == Trace[i] IN
  /\ C12_Rules(i)
  /\ PerpEdits(i, L, "C12", "funding parameters", {"minf", "maxf", "imp"}) /\ PerpFixed(i, L, "C12", "funding parameters", {"minf", "maxf", "imp"})
=============================================================================
