----------------------------- MODULE StablePrice -----------------------------
(* The stable price: follows the oracle with bounded speed.  Values are fixed
   point (2^-48); the implementation computes in floating point. *)
EXTENDS Fx, Sequences, FiniteSets, TLC
SpSlots == 24
SpMinStep == 10
SpMaxStep == 600
SpReset(sp, price, now) ==
  [sp EXCEPT !.p = price, !.dp = [k \in 1..SpSlots |-> price], !.dap = 0, !.dat = 0, !.lu = now,
             !.rs = IF IsPos(price) THEN 0 ELSE 1]
SpGrow(target, prev, limit) ==
  LET d == FxMul(prev, limit) IN Clamp(target, Sub(prev, d), Add(prev, d))
\* which of the slots 0..23 get the new delay price when the index moves from a to b
SpFilled(a, b, full) == IF full THEN 0..(SpSlots - 1)
                        ELSE IF b > a THEN a..(b - 1) ELSE (a..(SpSlots - 1)) \cup (0..(b - 1))
SpUpdate(sp0, now, price) ==
  LET sp == IF sp0.rs = 1 /\ IsPos(price) THEN SpReset(sp0, price, now) ELSE sp0
      dt == Max(Sub(now, sp.lu), 0)
      dl == Min(dt, SpMaxStep)
      full == Gt(dt, Mul(SpSlots, sp.di))
      dat == Add(sp.dat, dt)
      dap == Add(sp.dap, FxMulI(price, dl))
      idx == FMod(FDiv(now, sp.di), SpSlots)
      prev == sp.dp[IF sp.li = 0 THEN SpSlots ELSE sp.li]
      new == SpGrow(TDiv(dap, dat), prev, sp.dg)
      moved == idx # sp.li
      dp == IF moved THEN TLCEval([k \in 1..SpSlots |-> IF (k - 1) \in SpFilled(sp.li, idx, full) THEN new ELSE sp.dp[k]])
            ELSE sp.dp
      delay == dp[idx + 1]
      frac == IF Eq(delay, sp.p) THEN One ELSE IF Ge(delay, sp.p) THEN FxDiv(sp.p, delay) ELSE FxDiv(delay, sp.p)
      limit == FxMulI(FxMul(FxMul(sp.sg, frac), frac), dl)
  IN IF Lt(dt, SpMinStep) THEN sp
     ELSE [sp EXCEPT !.lu = now, !.dat = IF moved THEN 0 ELSE dat, !.dap = IF moved THEN 0 ELSE dap,
                     !.li = idx, !.dp = dp, !.p = SpGrow(price, sp.p, limit)]
\* equal up to the rounding of the floating point computation
SpNum(a, b) == Near(a, b, 2, 2048)
SpSame(a, b) ==
  /\ Eq(a.lu, b.lu) /\ Eq(a.dat, b.dat) /\ Eq(a.li, b.li) /\ Eq(a.rs, b.rs) /\ Eq(a.di, b.di)
  /\ Eq(a.dg, b.dg) /\ Eq(a.sg, b.sg)
  /\ SpNum(a.p, b.p) /\ Near(a.dap, b.dap, 2, 2048000) /\ \A k \in 1..SpSlots : SpNum(a.dp[k], b.dp[k])
\* C17 in its own words, for any two successive states without a reset
SpBounded(a, b, price) ==
  LET dl == Min(Max(Sub(b.lu, a.lu), 0), SpMaxStep)
      most == Add(FxMul(a.p, FxMulI(a.sg, dl)), 4096)
  IN /\ Within(b.p, a.p, Add(most, TDiv(a.p, 1000000000)))                     \* bounded speed
     /\ IF Ge(price, a.p) THEN Ge(Add(b.p, 4096), a.p) /\ Le(b.p, Add(price, 4096))   \* towards the oracle, not past it
        ELSE Le(b.p, Add(a.p, 4096)) /\ Ge(Add(b.p, 4096), price)
     /\ Ne(a.lu, b.lu) => Ge(Sub(b.lu, a.lu), SpMinStep)
=============================================================================
