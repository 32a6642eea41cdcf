-------------------------------- MODULE C19 --------------------------------
(* The spot market: every token sent to or received from the DEX is booked. *)
EXTENDS Fees
Bid3 == 0
\* limit price of an order in quote per base, scaled by 2^64, and its inverse, by 2^80
Px64(S, px) == FDiv(Shl(Mul(px, S.ql), 64), S.bl)
Inv80(S, px) == FDiv(Shl(S.bl, 80), Mul(px, S.ql))
Zero0(old, new, F(_, _)) == IF Eq(old, 0) THEN new ELSE F(old, new)
\* what may flow out of the open orders
PotBase(o, P) == Add(o.bt, Shr(Mul(ReservedQuote(o), P.lb), 80))
PotQuote(o, P) == Add(o.qt, Shr(Mul(ReservedBase(o), P.ha), 64))
PNear(x, y) == Within(x, y, Add(2, TDiv(Max(Abs(x), Abs(y)), "100000000000")))
PotMove(pst, old, new) == IF Ge(new, old) THEN Add(pst, Sub(new, old)) ELSE Max(Sub(pst, Sub(old, new)), 0)
Ids(o) == {o.os[k].id : k \in DOMAIN o.os}
BankIdx(op, t, payT) == IF t = payT THEN G(op, "b", 0) ELSE 0
PriceFields == {"hb", "la", "lb", "ha"}
OthersSame(L, a, m) ==
  LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
  /\ \A x \in AllAccs(L.pre) : x = a \/ L.pre.A[x + 1] = L.post.A[x + 1]
  /\ Same(A.pp, B.pp) /\ Same(A.oo, B.oo) /\ Same(A.cs, B.cs)
  /\ \A k \in DOMAIN A.s3 : A.s3[k].m = m \/ Same(A.s3[k], B.s3[k])
PlacedAsV1(s, op) ==
  LET off(x) == x \in Range(Grp(s).gate) IN G(op, "v1", 0) = 1 /\ ~off(33) /\ off(71)
C19_Place(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  a == op.a  S == Spot(pre, op.s)
      A == Acc(pre, a)  B == Acc(post, a)
      bid == op.side = Bid3
      pt == IF bid THEN S.qi ELSE S.bi   rt == IF bid THEN S.bi ELSE S.qi
      b == G(op, "b", 0)
      pb == Bank(pre, pt, b)  pb2 == Bank(post, pt, b)  rb == Bank0(pre, rt)  rb2 == Bank0(post, rt)
      O == OO(pre, a, op.s)  O2 == OO(post, a, op.s)
      P == SPos(A, S.m)  P2 == SPos(B, S.m)
      sent == Sub(pb.v, pb2.v)
      vd == VaultDiff(pb, TIdx(A, pt), InUseTok(A, pt), NegB(FxInt(sent)), pre.now)
      hadBids == \E k \in DOMAIN O.os : O.os[k].side = Bid3
      hadAsks == \E k \in DOMAIN O.os : O.os[k].side # Bid3
      rests == Ids(O2) # Ids(O)
      hb0 == IF hadBids THEN P.hb ELSE 0    lb0 == IF hadBids THEN P.lb ELSE 0
      la0 == IF hadAsks THEN P.la ELSE 0    ha0 == IF hadAsks THEN P.ha ELSE 0
      inv == Inv80(S, op.px)  px == Px64(S, op.px)
      newBid == rests /\ bid   newAsk == rests /\ ~bid
      borrowed == Gt(FxInt(sent), Native(TIdx(A, pt), pb))
      \* the older instruction acts like the newer one wherever that is possible
      v1 == PlacedAsV1(pre, op)
  IN
  /\ Rule(i, "C19 placing books what left the vault", Ge(sent, 0) /\ Eq(TIdx(B, pt), vd[2]) /\ LedgerEq(pb2, vd[1]))
  /\ Rule(i, "C19 placing leaves the receiving token alone", Eq(TIdx(B, rt), TIdx(A, rt)) /\ LedgerEq(rb2, rb) /\ Eq(rb2.v, rb.v))
  /\ Rule(i, "C19 loans not yet charged are remembered",
       IF bid THEN Eq(P2.qb, Add(P.qb, vd[3])) /\ Eq(P2.bb, P.bb) ELSE Eq(P2.bb, Add(P.bb, vd[3])) /\ Eq(P2.qb, P.qb))
  /\ Rule(i, "C19 the extreme prices of resting orders are tracked",
       /\ Near(P2.hb, IF newBid THEN Zero0(hb0, inv, Min) ELSE hb0, 1, 4)
       /\ Near(P2.lb, IF newBid THEN Zero0(lb0, inv, Max) ELSE lb0, 1, 4)
       /\ Near(P2.la, IF newAsk THEN Zero0(la0, px, Min) ELSE la0, 1, 4)
       /\ Near(P2.ha, IF newAsk THEN Zero0(ha0, px, Max) ELSE ha0, 1, 4))
  /\ Rule(i, "C19 potential amounts match the open orders after placing",
       /\ (~v1 \/ ~bid) => PNear(P2.pb, PotBase(O2, P2))
       /\ (~v1 \/ bid) => PNear(P2.pq, PotQuote(O2, P2)))
  /\ v1 => Rule(i, "C19 without the receiving bank only the payer's amount is updated", IF bid THEN Eq(P2.pb, P.pb) ELSE Eq(P2.pq, P.pq))
  /\ Rule(i, "C19 banks count the potential amounts",
       /\ Eq(pb2.pst, IF bid THEN PotMove(pb.pst, P.pq, P2.pq) ELSE PotMove(pb.pst, P.pb, P2.pb))
       /\ Eq(rb2.pst, IF v1 THEN rb.pst ELSE IF bid THEN PotMove(rb.pst, P.pb, P2.pb) ELSE PotMove(rb.pst, P.pq, P2.pq)))
  /\ Rule(i, "C19 no order in reduce-only markets", S.ro = 0 /\ Gt(op.px, 0))
  /\ borrowed => Rule(i, "C19 borrowing to place respects the mode and limits",
       /\ pb.ro = 0 /\ BorrowUtilOk(pb2) /\ (PrimaryOk(pre, pt) => NetBorrowsOk(pb2, Ora(pre, pt).px)) /\ DepositLimitOk(pb2))
  /\ ~borrowed => Rule(i, "C19 placing never takes borrows above deposits", BorrowsLteDeposits(pb2))
  /\ Rule(i, "C19 the receiving token's deposit limit holds", DepositLimitOk(rb2))
  /\ (rests /\ Ne(S.band, 0) /\ Ne(S.band, F64Max)) =>
       Rule(i, "C19 resting orders are within the price band",
         LET bp == TPrice(pre, S.bi)  qp == TPrice(pre, S.qi)
             lim == FxMul(Px64(S, op.px), qp)            \* 2^64
             f == Add(One, S.band)
             slackN(x) == Add(TDiv(x, 100000000), 65536) IN
         IF bid THEN LET r == Shl(bp, 16) IN Ge(Add(FxMul(lim, f), slackN(r)), r)
         ELSE LET r == FxMul(Shl(bp, 16), f) IN Le(lim, Add(r, slackN(r))))
  /\ Rule(i, "C19 placing concerns one market of one account",
       /\ OthersSame(L, a, S.m)
       /\ \A t \in Toks(pre) : t \in {pt, rt} \/ (pre.B[t + 1] = post.B[t + 1] /\ Eq(TIdx(A, t), TIdx(B, t)))
       /\ \A x \in AllAccs(pre) : pre.W[x + 1] = post.W[x + 1])
\* settling: charged loans, received tokens, fees
C19_Settle(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  a == op.a  S == Spot(pre, op.s)  now == pre.now
      A == Acc(pre, a)  B == Acc(post, a)
      liq == op.op = "s3_liq_cancel"
      bb == Bank0(pre, S.bi)  bb2 == Bank0(post, S.bi)  qb == Bank0(pre, S.qi)  qb2 == Bank0(post, S.qi)
      O == OO(pre, a, op.s)  O2 == OO(post, a, op.s)
      P == SPos(A, S.m)  P2 == SPos(B, S.m)
      toDao == liq \/ G(op, "v1", 0) = 1 \/ G(op, "dao", 1) # 0
      rebate == IF toDao THEN Max(Sub(O.rb, O2.rb), 0) ELSE 0
      loanB == Max(Sub(P.bb, O.bt), 0)   loanQ == Max(Sub(P.qb, O.qt), 0)
      cb == LofCharge(bb, TIdx(A, S.bi), InUseTok(A, S.bi), loanB, now)
      cq == LofCharge(qb, TIdx(A, S.qi), InUseTok(A, S.qi), loanQ, now)
      gotB == Sub(bb2.v, bb.v)   gotQ == Sub(Sub(qb2.v, qb.v), rebate)
      db == VaultDiff(cb[1], cb[2], InUseTok(A, S.bi), FxInt(gotB), now)
      dq == VaultDiff([cq[1] EXCEPT !.fee = Add(@, FxInt(rebate))], cq[2], InUseTok(A, S.qi), FxInt(gotQ), now)
      X == IF liq \/ ~toDao \/ G(op, "v1", 0) = 1 THEN <<A.bc, A.bp, A.bx>>
           ELSE LET iv == Grp(pre).bbx
                    fresh == Eq(iv, 0) \/ Lt(now, A.bx)
                    bp == IF fresh THEN A.bp ELSE IF Lt(now, Add(A.bx, iv)) THEN A.bc ELSE 0
                    bc == IF fresh THEN A.bc ELSE 0
                    usd == Max(FxFloor(FxMul(FxInt(rebate), Min(Ora(pre, S.qi).px, BStable(qb)))), 0)
                IN <<Min(Add(bc, usd), U64Max), bp, IF fresh THEN A.bx ELSE Mul(Add(FDiv(now, iv), 1), iv)>>
  IN
  /\ Rule(i, "C19 settling books what the vaults received, less rebates kept", Ge(gotB, 0) /\ Ge(gotQ, 0) /\ Eq(TIdx(B, S.bi), db[2]) /\ Eq(TIdx(B, S.qi), dq[2]))
  /\ Rule(i, "C19 settling charges each loan once and books fees", LedgerEq(bb2, db[1]) /\ LedgerEq(qb2, dq[1]))
  /\ Rule(i, "C19 charged and returned loans are forgotten",
       /\ Eq(P2.bb, Max(Sub(Sub(P.bb, loanB), gotB), 0)) /\ Eq(P2.qb, Max(Sub(Sub(P.qb, loanQ), gotQ), 0)))
  /\ Rule(i, "C19 all free funds are settled", Eq(O2.bf, 0) /\ Eq(O2.qf, 0) /\ Eq(O2.rb, 0))
  /\ ~liq => Rule(i, "C19 what the vaults received is what the open orders gave",
       Eq(gotB, O.bf) /\ Eq(Add(gotQ, rebate), Add(O.qf, O.rb)))
  /\ Rule(i, "C19 potential amounts match the open orders after settling", PNear(P2.pb, PotBase(O2, P)) /\ PNear(P2.pq, PotQuote(O2, P)))
  /\ Rule(i, "C19 banks count the potential amounts",
       Eq(bb2.pst, PotMove(bb.pst, P.pb, P2.pb)) /\ Eq(qb2.pst, PotMove(qb.pst, P.pq, P2.pq)))
  /\ Rule(i, "C19 rebates kept count for buyback at the quote token's price", Eq(B.bc, X[1]) /\ Eq(B.bp, X[2]) /\ Eq(B.bx, X[3]))
  /\ Rule(i, "C19 settling concerns one market of one account",
       /\ OthersSame(L, a, S.m)
       /\ \A f \in PriceFields : Eq(P[f], P2[f])
       /\ \A t \in Toks(pre) : t \in {S.bi, S.qi} \/ (pre.B[t + 1] = post.B[t + 1] /\ Eq(TIdx(A, t), TIdx(B, t)))
       /\ \A x \in AllAccs(pre) : pre.W[x + 1] = post.W[x + 1])
\* what all accounts hold on the markets of a token, and what its banks count
PotentialSum(s, t) == SumSeq([k \in 1..NAcc(s) |-> IF ~Live(s, k - 1) THEN 0 ELSE
  LET A == Acc(s, k - 1) IN SumSeq([j \in DOMAIN A.s3 |-> IF A.s3[j].m = -1 THEN 0 ELSE
     Add(IF A.s3[j].bi = t THEN A.s3[j].pb ELSE 0, IF A.s3[j].qi = t THEN A.s3[j].pq ELSE 0)])])
BankPotential(s, t) == SumSeq([b \in 1..NBank(s, t) |-> IF Bank(s, t, b - 1).live = 1 THEN Bank(s, t, b - 1).pst ELSE 0])
SpotOps == {"s3_place", "s3_settle", "s3_liq_cancel"}
DexOnly == {"s3_cancel", "s3_cancel_cid", "s3_cancel_all", "dex_fill"}
LedgerFields == {"bb", "qb", "pb", "pq", "hb", "la", "lb", "ha"}
C19_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op IN
  (L.ok = 1 /\ n # "init") =>
  /\ n = "s3_place" => C19_Place(i, L)
  /\ (n = "s3_settle" \/ (n = "s3_liq_cancel" /\ L.pre.OO # L.post.OO)) => C19_Settle(i, L)
  /\ n \in DexOnly => Rule(i, "C19 what only moves within the DEX moves no balance", L.pre.A = L.post.A /\ L.pre.B = L.post.B /\ L.pre.W = L.post.W)
  /\ (n \notin SpotOps \cup {"batch", "via_proxy"} /\ L.pre.A # L.post.A) =>
       \A a \in AllAccs(L.pre) : (L.pre.A[a + 1] # L.post.A[a + 1] /\ Live(L.pre, a) /\ Live(L.post, a)) =>
         \A m \in Spots(L.pre) : (HasSpot(Acc(L.pre, a), Spot(L.pre, m).m) /\ HasSpot(Acc(L.post, a), Spot(L.pre, m).m)) =>
           Rule(i, "C19 nothing else changes what is tracked per market",
                Changed(SPos(Acc(L.pre, a), Spot(L.pre, m).m), SPos(Acc(L.post, a), Spot(L.pre, m).m)) \cap LedgerFields = {})
  /\ n = "s3_close" => Rule(i, "C19 nothing tracked is left on a closed market",
       LET P == SPos(Acc(L.pre, op.a), Spot(L.pre, op.s).m) IN Eq(P.pb, 0) /\ Eq(P.pq, 0))
  /\ (L.pre.A # L.post.A \/ L.pre.B # L.post.B) => \A t \in Toks(L.post) : Tok(L.post, t).live = 1 =>
       IF NBank(L.post, t) = 1 THEN Rule(i, "C19 a bank's potential amount is the sum over all open orders", Eq(BankPotential(L.post, t), PotentialSum(L.post, t)))
       ELSE TRUE
=============================================================================
