------------------------------- MODULE Oracle -------------------------------
(* When an oracle price may be used, and the price a bank or perp market takes
   from its oracles. *)
EXTENDS Bank

\* a stub oracle without stated deviation or update slot counts as exact and current
OracleConfident(o, cf) == Eq(o.dev, 0) \/ Le(o.dev, FxMul(cf, o.px))
OracleFresh(o, ms, slot) == Lt(ms, 0) \/ Eq(o.slot, 0) \/ Ge(Add(o.slot, ms), slot)
OracleOk(o, cf, ms, slot) == OracleConfident(o, cf) /\ OracleFresh(o, ms, slot)
NoPrice == -1                                 \* prices are never negative
\* price of bank bk of token t in state s: its oracle's if good, else its fallback's if there is a good one
PrimaryOk(s, t) == OracleOk(Ora(s, t), Bank0(s, t).ocf, Bank0(s, t).oms, s.slot)
FallbackOk(s, t) == LET bk == Bank0(s, t) IN
  bk.fbo = 1 /\ FbOra(s, t).none = 0 /\ OracleOk(FbOra(s, t), bk.ocf, bk.oms, s.slot)
\* a token left out of the accounts given to an instruction is as one without a price
LeavingOut(s, op) == IF "drop" \in DOMAIN op THEN [drop |-> Range(op.drop)] @@ s ELSE s
LeftOut(s, t) == "drop" \in DOMAIN s /\ t \in s.drop
TPrice(s, t) == IF LeftOut(s, t) THEN NoPrice ELSE IF PrimaryOk(s, t) THEN Ora(s, t).px
                ELSE IF FallbackOk(s, t) THEN FbOra(s, t).px ELSE NoPrice
PPrice(s, p) == LET m == Perp(s, p) o == POra(s, p) IN
                IF OracleOk(o, m.ocf, m.oms, s.slot) THEN o.px ELSE NoPrice
TOk(s, t) == Ne(TPrice(s, t), NoPrice)
POk(s, p) == Ne(PPrice(s, p), NoPrice)
=============================================================================
