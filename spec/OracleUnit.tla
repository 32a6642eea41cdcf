----------------------------- MODULE OracleUnit -----------------------------
(* Oracle accounts of every type by themselves: the price, deviation and slot
   read from the raw account, the verdict on it, and the price a bank or a
   perp market takes from it and from a fallback. *)
EXTENDS Oracle
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l

QuoteDecimals == 6
SolDecimals == 9
\* ten to the power of d, to the nearest fixed point number
Ten(d) == IF d >= 0 THEN Mul(Pow(10, d), One) ELSE FDiv(Add(Mul(One, 2), Pow(10, -d)), Mul(Pow(10, -d), 2))
Bad == [ok |-> FALSE]
St(px, dev, slot, time) == IF IsNeg(px) THEN Bad ELSE [ok |-> TRUE, px |-> px, dev |-> dev, slot |-> slot, time |-> time]
NoTime == -1
Ageless == -1                       \* an update slot that never gets old
\* n / 2^k of a coin with so many decimals, in native units of quote
Ui(nn, k, dec) == FxMul(TDiv(Mul(nn, One), Pow2(k)), Ten(QuoteDecimals - dec))
FromPyth(r, dec) ==
  LET a == Ten(r.expo + QuoteDecimals - dec)  now == r.st = 1 IN      \* 1: trading; otherwise the last traded price counts
  St(FxMul(FxInt(IF now THEN r.px ELSE r.ppx), a), FxMul(FxInt(IF now THEN r.dev ELSE r.pdev), a), IF now THEN r.slot ELSE r.pslot, NoTime)
FromPyth2(r, dec) ==
  LET a == Ten(r.expo + QuoteDecimals - dec) IN
  IF r.full = 0 THEN Bad ELSE St(FxMul(FxInt(r.px), a), FxMul(FxInt(r.dev), a), r.slot, r.time)
Quote(r) == IF r.a = "usdc" \/ (r.a = "sol" /\ r.b # "usdc") THEN r.a ELSE r.b
FromPool(c, r) ==
  LET q == Quote(r)
      feed == IF q = "usdc" /\ c.gu = 1 THEN FromPyth(c.usdc, QuoteDecimals) ELSE IF q = "sol" /\ c.gs = 1 THEN FromPyth(c.sol, SolDecimals) ELSE Bad
      sq == Mul(r.sqrt, r.sqrt)                                         \* 2^128 times the price of a in b
      px == IF q = r.a THEN TDiv(Pow2(176), sq) ELSE Shr(Shr(sq, 64), 16) IN
  IF r.bad # "" \/ ~feed.ok THEN Bad ELSE St(FxMul(px, feed.px), feed.dev, feed.slot, NoTime)
Read(c, ty, r) ==
  CASE ty = "stub" -> St(r.px, r.dev, IF Eq(r.slot, 0) THEN Ageless ELSE r.slot, NoTime)
    [] ty = "pyth" -> FromPyth(r, c.dec)
    [] ty = "pyth2" -> FromPyth2(r, c.dec)
    [] ty = "sb1" -> St(Ui(r.px, r.sh, c.dec), Ui(r.dev, r.sh, c.dec), r.slot, NoTime)
    [] ty = "sb2" -> IF Gt(r.min, r.got) THEN Bad ELSE St(Ui(r.px, r.sh, c.dec), Ui(r.dev, r.sh, c.dec), r.slot, NoTime)
    [] ty = "sbod" -> IF r.any = 0 THEN Bad ELSE St(Ui(r.px, r.sh, c.dec), Ui(r.dev, r.sh, c.dec), r.slot, NoTime)
    [] ty = "clmm" -> FromPool(c, r)
    [] OTHER -> Bad
SlotMs == 450
Stale(c, s) == ~IsNeg(c.ms) /\ ~Eq(s.slot, Ageless) /\ Lt(Add(s.slot, c.ms), c.slot)
\* where the time of a price is known, it counts as well
Old(c, s) == ~IsNeg(c.ms) /\ ~Eq(s.time, NoTime) /\ Lt(Mul(s.time, 1000), Sub(Mul(c.now, 1000), Mul(c.ms, SlotMs)))
\* a stub without a deviation is exact
Unsure(c, ty, s) == ~(ty = "stub" /\ Eq(s.dev, 0)) /\ Gt(s.dev, FxMul(c.cf, s.px))
Usable(c, ty, s) == ~Unsure(c, ty, s) /\ (c.checked = 1 => ~Stale(c, s) /\ ~Old(c, s))
Float(c, ty, r) == ty = "clmm" /\ Quote(r) = r.a
SameState(c, ty, r, want, got) ==
  IF ~want.ok THEN got.err # 0
  ELSE /\ got.err = 0
       /\ IF Float(c, ty, r) THEN Near(got.px, want.px, 1000, Add(2, FxMul(Shr(want.px, 20), 1))) ELSE Eq(got.px, want.px)
       /\ Eq(got.dev, want.dev) /\ Eq(got.slot, want.slot) /\ Eq(got.time, want.time)
Verdict(i, c, ty, s, v) ==
  /\ Rule(i, "C16 oracle: stale exactly when too old", (v.stale # 0) = (Stale(c, s) \/ Old(c, s)) /\ v.stale \in {0, 6024})
  /\ Rule(i, "C16 oracle: unconfident exactly when the deviation is too large", (v.conf # 0) = Unsure(c, ty, s) /\ v.conf \in {0, 6023})
  /\ Rule(i, "C16 oracle: usable exactly when neither", (v.both = 0) = (v.stale = 0 /\ v.conf = 0) /\ (v.notime = 0) = (v.conf = 0))
C16_Inv ==
  LET c == Trace[l] i == l
      w == TLCEval(Read(c, c.ty, c.raw))  fw == TLCEval(Read(c, c.fty, c.fraw))
      \* what was read is judged by rules of its own
      s == IF w.ok THEN [w EXCEPT !.px = c.st.px] ELSE w
      f == IF fw.ok /\ c.gf = 1 THEN [fw EXCEPT !.px = c.fst.px] ELSE Bad
      su == s.ok /\ Usable(c, c.ty, s)
      fu == f.ok /\ c.gf = 1 /\ c.wf = 0 /\ Usable(c, c.fty, f) IN
  /\ Rule(i, "C16 oracle: " \o c.ty \o " is read as specified", SameState(c, c.ty, c.raw, w, c.st))
  /\ (w.ok /\ c.st.err = 0) => Verdict(i, c, c.ty, s, c.v)
  /\ c.gf = 0 => Rule(i, "C16 oracle: no fallback without its account", c.fst.err # 0)
  /\ c.gf = 1 => Rule(i, "C16 oracle: a fallback is read alike", SameState(c, c.fty, c.fraw, fw, c.fst))
  /\ (c.gf = 1 /\ fw.ok /\ c.fst.err = 0) => Verdict(i, c, c.fty, f, c.fv)
  /\ Rule(i, "C16 oracle: only readable pools with a known quote may be fallbacks",
       (c.valid = 0) = (c.ty # "junk" /\ ~(c.ty = "clmm" /\ (c.raw.bad # "" \/ (c.raw.a = "other" /\ c.raw.b = "other")))))
  /\ Rule(i, "C16 oracle: a bank prices by its oracle, or by its fallback where that is unusable",
       IF c.wp = 1 \/ ~s.ok THEN c.bank.err # 0
       ELSE IF su THEN c.bank.err = 0 /\ Eq(c.bank.px, s.px)
       ELSE IF fu THEN c.bank.err = 0 /\ Eq(c.bank.px, f.px)
       ELSE c.bank.err # 0)
  /\ Rule(i, "C16 oracle: a perp market prices by its oracle only",
       IF c.wp = 0 /\ su THEN c.perp.err = 0 /\ Eq(c.perp.px, s.px) ELSE c.perp.err # 0)
=============================================================================
