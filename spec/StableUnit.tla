----------------------------- MODULE StableUnit -----------------------------
(* The stable price model by itself, on irregular update times and prices. *)
EXTENDS Mango, StablePrice
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
C17_Inv ==
  LET c == Trace[l]  sp == c.sp  sp2 == c.sp2 IN
  /\ Rule(l, "C17 model: an update always succeeds", c.ok = 1)
  /\ Rule(l, "C17 model: the delay interval of a time", Eq(c.idx, FMod(FDiv(c.now, sp.di), SpSlots)))
  /\ (c.f = "reset" => Rule(l, "C17 model: a reset jumps to the price", SpSame(SpReset(sp, c.px, c.now), sp2)))
  /\ (c.f = "update" =>
       /\ Rule(l, "C17 model: the specified update", SpSame(SpUpdate(sp, c.now, c.px), sp2))
       /\ Rule(l, "C17 model: bounded speed", (sp.rs = 1 /\ IsPos(c.px)) \/ SpBounded(sp, sp2, c.px)))
=============================================================================
