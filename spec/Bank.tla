-------------------------------- MODULE Bank --------------------------------
(* The ledger of one bank: deposits and withdrawals of a token position.
   A position is its indexed amount x: native = x * deposit index if positive,
   x * borrow index otherwise. *)
EXTENDS Mango

\* the net borrow counter of the current window after amt (native, fixed)
NetBorrows(bk, amt, now) ==
  IF Ge(now, Add(bk.nbw, bk.nbz))
    THEN [bk EXCEPT !.nb = FxCeil(amt), !.nbw = Mul(FDiv(now, bk.nbz), bk.nbz)]
    ELSE [bk EXCEPT !.nb = Add(bk.nb, FxCeil(amt))]

\* indexed amount of a native amount, rounded so that it is worth at least that
UpDiv(n, index) == LET q == FxDiv(n, index) IN IF Lt(FxMul(q, index), n) THEN Add(q, 1) ELSE q

\* result: [bk, x, act]; act = FALSE: the position was dusted
BankDeposit(bk0, x, amt, dusting, now) ==
  LET nat == Native(x, bk0)
      bk == IF IsNeg(nat) THEN NetBorrows(bk0, Max(nat, NegB(amt)), now) ELSE bk0
      new == Add(nat, amt)
      chg == UpDiv(amt, bk.bi)
      nx  == Add(x, chg)
      add(b, y, n) == LET c == UpDiv(n, b.di) IN
                      [bk |-> [b EXCEPT !.id = Add(b.id, c)], x |-> Add(y, c), act |-> TRUE]
  IN IF ~IsNeg(nat) THEN add(bk, x, amt)
     ELSE IF IsNeg(nx) THEN [bk |-> [bk EXCEPT !.ib = Sub(bk.ib, chg)], x |-> nx, act |-> TRUE]
     ELSE IF Lt(new, One) /\ dusting
       THEN [bk |-> [bk EXCEPT !.dust = Add(bk.dust, new), !.ib = Add(bk.ib, x)], x |-> 0, act |-> FALSE]
     ELSE add([bk EXCEPT !.ib = Add(bk.ib, x)], 0, Max(new, 0))

\* result: [bk, x, act, fee, loan]
BankWithdraw(bk, x, amt, withFee, dusting, now) ==
  LET nat == Native(x, bk)
      new == Sub(nat, amt)
      borrow(b, y, n) ==
        LET fee == IF withFee THEN FxMul(b.lofr, n) ELSE 0
            tot == Add(n, fee)
            chg == FxDiv(tot, b.bi)
            b2  == [b EXCEPT !.fee = Add(b.fee, fee), !.ib = Add(b.ib, chg)]
        IN [bk |-> NetBorrows(b2, tot, now), x |-> Sub(y, chg), act |-> TRUE, fee |-> fee, loan |-> tot]
  IN IF IsNeg(nat) THEN borrow(bk, x, amt)
     ELSE IF IsNeg(new) THEN borrow([bk EXCEPT !.id = Sub(bk.id, x)], 0, NegB(new))
     ELSE IF Lt(new, One) /\ dusting
       THEN [bk |-> [bk EXCEPT !.dust = Add(bk.dust, new), !.id = Sub(bk.id, x)], x |-> 0, act |-> FALSE, fee |-> 0, loan |-> 0]
     ELSE LET chg == FxDiv(amt, bk.di) IN
          [bk |-> [bk EXCEPT !.id = Sub(bk.id, chg)], x |-> Sub(x, chg), act |-> TRUE, fee |-> 0, loan |-> 0]

\* signed change; LOF charged on new borrows when withFee
BankChange(bk, x, amt, withFee, dusting, now) ==
  IF IsNeg(amt) THEN BankWithdraw(bk, x, NegB(amt), withFee, dusting, now)
  ELSE LET r == BankDeposit(bk, x, amt, dusting, now)
       IN [bk |-> r.bk, x |-> r.x, act |-> r.act, fee |-> 0, loan |-> 0]

\* the ledger part of a bank agrees with the specified one
LedgerEq(b, e) == /\ Eq(b.id, e.id) /\ Eq(b.ib, e.ib) /\ Eq(b.dust, e.dust) /\ Eq(b.fee, e.fee)
                  /\ Eq(b.nb, e.nb) /\ Eq(b.nbw, e.nbw) /\ Eq(b.di, e.di) /\ Eq(b.bi, e.bi)

NatDeposits(bk) == FxMul(bk.di, bk.id)
NatBorrows(bk) == FxMul(bk.bi, bk.ib)
\* limits of C06
UtilOk(bk, ratio) == Le(NatBorrows(bk), FxMul(ratio, NatDeposits(bk)))
BorrowUtilOk(bk) == UtilOk(bk, Sub(One, bk.minv))
BorrowsLteDeposits(bk) == UtilOk(bk, One)
\* stable price of a bank as fixed point
BStable(bk) == bk.sp.p
NetBorrowsOk(bk, price) ==
  \/ Lt(bk.nb, 0) \/ Lt(bk.nbl, 0)
  \/ Le(Mul(Max(price, BStable(bk)), bk.nb), FxInt(bk.nbl))
DepositLimitOk(bk) == Eq(bk.dl, 0) \/ Le(Add(NatDeposits(bk), FxInt(bk.pst)), FxInt(bk.dl))
=============================================================================
