------------------------------- MODULE TcsUnit -------------------------------
(* Conditional swaps by themselves: what a swap says about itself at a time, at
   a price and next to a position.                                              *)
EXTENDS C18
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Tf(b) == IF b THEN 1 ELSE 0
CloseTo(a, b, ref) == Le(Abs(Sub(a, b)), Add(16, Shr(Abs(ref), 46)))
Close(a, b) == Le(Abs(Sub(a, b)), Add(16, Shr(Abs(b), 46)))
\* why a swap cannot start or trigger (0: it can)
StartCode(c, px, now) ==
  CASE Expired18(c, now) -> 6050
    [] Ne(c.start, 0) -> 6052
    [] ~Startable(c) -> 6059
    [] ~InRange(c, px, 0) -> 6049
    [] OTHER -> 0
TriggerCode(c, px, now) ==
  CASE Expired18(c, now) -> 6050
    [] Eq(c.ty, Fixed18) /\ ~InRange(c, px, 0) -> 6049
    [] Ne(c.ty, Fixed18) /\ ~Started(c, now) -> 6051
    [] OTHER -> 0
\* the price is defined once running (a swap of fixed premium always is)
Priced(c, now) == \/ Eq(c.ty, Fixed18)
                  \/ Eq(c.ty, Auction) /\ (Eq(c.start, 0) \/ Ge(now, c.start))
                  \/ Eq(c.ty, Linear) /\ Started(c, now)
C18_Inv ==
  LET x == Trace[l]  c == x.c  bk == [ro |-> x.ro]  sc == StartCode(c, x.px, x.now)  tc == TriggerCode(c, x.px, x.now) IN
  /\ Rule(l, "C18 swap: expired from the expiry on", x.exp = Tf(Expired18(c, x.now)))
  /\ Rule(l, "C18 swap: started from the start on", x.started = Tf(Started(c, x.now)))
  /\ Rule(l, "C18 swap: only premium auctions are started", x.stype = Tf(Startable(c)))
  /\ Rule(l, "C18 swap: when it may start", x.start = sc /\ x.canstart = Tf(sc = 0))
  /\ Rule(l, "C18 swap: when it may trigger", x.trig = tc /\ x.cantrig = Tf(tc = 0))
  /\ Rule(l, "C18 swap: the price offered", IF Priced(c, x.now) THEN CloseTo(x.prem, PremiumPx(c, x.px, x.now), IF Eq(c.ty, Linear) THEN Max(c.lo, c.hi) ELSE Mul(2, x.px)) ELSE Eq(x.prem, -1))
  /\ Rule(l, "C18 swap: prices after fees", Close(x.mp, MakerPx(c, x.pp)) /\ Close(x.tp, TakerPx(c, x.pp)))
  /\ Rule(l, "C18 swap: the offered price lies between its ends",
       (Priced(c, x.now) /\ Eq(c.ty, Linear)) => Ge(Add(x.prem, 16), Min(c.lo, c.hi)) /\ Le(x.prem, Add(Max(c.lo, c.hi), 16)))
  /\ Rule(l, "C18 swap: fee amounts", Eq(x.mfee, FxFloor(FxMul(x.base, c.mf))) /\ Eq(x.tfee, FxFloor(FxMul(x.base, c.tf))))
  /\ Rule(l, "C18 swap: what remains", Eq(x.rb, Sub(c.xb, c.b)) /\ Eq(x.rs, Sub(c.xs, c.s)))
  /\ Rule(l, "C18 swap: the most it may buy", Eq(x.mb, MaxBuy(c, x.pos, bk)))
  /\ Rule(l, "C18 swap: the most it may sell", Eq(x.ms, MaxSell(c, x.pos, bk)))
=============================================================================
