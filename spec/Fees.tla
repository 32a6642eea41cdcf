-------------------------------- MODULE Fees --------------------------------
(* Loans and what they cost, shared by flash loans and the spot markets. *)
EXTENDS Health
InUseTok(A, t) == HasTok(A, t) /\ TPos(A, t).u > 0
\* the flash loan of token t settled by line L (bank 0 of the token): what is booked
FlashBook(L, t) ==
  LET op == L.op  s == L.pre  bk == Bank0(s, t)  A == Acc(s, op.a)
      who == G(op, "wallet", op.a)
      back == Max(Sub(Wal(s, who)[t + 1], bk.fli), 0)
      change == FxInt(Sub(back, bk.fla))
      nat == Native(TIdx(A, t), bk)
      loan == IF IsPos(nat) THEN Max(Sub(FxInt(bk.fla), nat), 0) ELSE FxInt(bk.fla)
      lof == FxMul(loan, bk.lofr)
      maxRate == LET R == {op.loans[k].t : k \in DOMAIN op.loans} IN
                 Bank0(s, CHOOSE x \in R : \A y \in R : Ge(Bank0(s, x).fls, Bank0(s, y).fls)).fls
      swap == IF G(op, "type", 0) = 1 /\ IsNeg(change) THEN FxMul(NegB(change), maxRate) ELSE 0
      amt == Sub(Sub(change, lof), swap)
      r == BankChange([bk EXCEPT !.fee = Add(Add(@, lof), swap)], TIdx(A, t), amt, FALSE, ~InUseTok(A, t), s.now)
  IN [back |-> back, change |-> change, amt |-> amt, nat |-> nat, after |-> Add(nat, amt), bk |-> r.bk, x |-> r.x, who |-> who]
\* a change of the vault booked on a spot market position: <<bank, position, new borrows>>
VaultDiff(bk, x, inUse, diff, now) ==
  LET r == BankChange(bk, x, diff, FALSE, ~inUse, now)
      n0 == Native(x, bk)  n1 == Native(r.x, r.bk)
      nb == FxFloor(Abs(Min(Max(Sub(n1, n0), n1), 0)))
  IN <<r.bk, r.x, nb>>
LofCharge(bk, x, inUse, loan, now) ==
  LET fee == FxMul(FxInt(loan), bk.lofr)
      r == BankWithdraw([bk EXCEPT !.fee = Add(@, fee)], x, fee, FALSE, ~inUse, now)
  IN IF IsPos(loan) THEN <<r.bk, r.x>> ELSE <<bk, x>>
=============================================================================
