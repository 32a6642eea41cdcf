-------------------------------- MODULE C02 --------------------------------
(* Interest: index updates, the rate curve and its scaling. *)
EXTENDS Oracle, Edits
Hour == 3600
Year == 31536000
SumBank(s, t, F(_)) == SumSeq([k \in 1..NBank(s, t) |-> IF Bank(s, t, k - 1).live = 1 THEN F(Bank(s, t, k - 1)) ELSE 0])
Util(nd, nb) == IF Eq(nd, 0) THEN 0 ELSE Clamp(FxDiv(nb, nd), 0, One)
Curve(bk, u) ==
  LET v == IF Le(u, bk.u0) THEN Add(bk.zur, FxMul(FxDiv(Sub(bk.r0, bk.zur), bk.u0), u))
           ELSE IF Le(u, bk.u1) THEN Add(bk.r0, FxMul(FxDiv(Sub(bk.r1, bk.r0), Sub(bk.u1, bk.u0)), Sub(u, bk.u0)))
           ELSE Add(bk.r1, FxMul(FxDiv(Sub(bk.mr, bk.r1), Sub(One, bk.u1)), Sub(u, bk.u1)))
  IN IF Eq(bk.ics, 0) THEN v ELSE FxMul(v, bk.ics)
Accrue(index, rate, dt) == Add(FxDiv(FxMul(FxMul(index, rate), FxInt(dt)), FxInt(Year)), index)
\* the new values common to all banks, from bank 0
Interest2(s, t) ==
  LET bk == Bank0(s, t)  now == s.now
      totD == SumBank(s, t, LAMBDA b : b.id)  totB == SumBank(s, t, LAMBDA b : b.ib)
      dt == Min(Sub(now, bk.ilu), Hour)
      nd == FxMul(bk.di, totD)  nb == FxMul(bk.bi, totB)
      u == Util(nd, nb)
      rate == Curve(bk, u)
      fee == FxDiv(FxMul(FxMul(nb, bk.lfr), FxInt(dt)), FxInt(Year))
      span == Sub(now, bk.rlu)
      au == IF Le(span, 0) THEN u
            ELSE FxDiv(Add(FxMulI(bk.au, Sub(bk.ilu, bk.rlu)), FxMulI(u, Sub(now, bk.ilu))), FxInt(span))
  IN [di |-> Accrue(bk.di, FxMul(rate, u), dt), bi |-> Accrue(bk.bi, Add(rate, bk.lfr), dt), fee |-> fee, au |-> au,
      u |-> u, nd |-> nd, nb |-> nb, totD |-> totD, totB |-> totB, rate |-> rate, dt |-> dt]
\* the curve after at least an hour
Rescaled(bk, au, now) ==
  IF Le(Sub(now, bk.rlu), Hour) THEN bk
  ELSE LET first == Eq(bk.ics, 0)
           ics0 == IF first THEN Mul(bk.mr, 2) ELSE bk.ics
           tgt == IF first THEN bk.u0 ELSE bk.itu
           k == FxDiv(One, ics0)
           a == Clamp(au, 0, One)
           f == IF Eq(a, tgt) THEN 0 ELSE IF Gt(a, tgt) THEN FxDiv(Sub(a, tgt), Sub(One, tgt)) ELSE FxDiv(Sub(a, tgt), tgt)
       IN [bk EXCEPT !.rlu = now, !.itu = tgt,
                     !.r0 = IF first THEN FxMul(bk.r0, k) ELSE bk.r0,
                     !.r1 = IF first THEN FxMul(bk.r1, k) ELSE bk.r1,
                     !.mr = IF first THEN FxMul(bk.mr, k) ELSE bk.mr,
                     \* no average and no target utilization: back to the minimum
                     !.ics = IF Eq(tgt, 0) /\ Eq(a, 0) THEN One ELSE Max(One, FxMul(ics0, Add(One, FxMul(bk.adj, f))))]
Fuzzy(a, b) == Near(a, b, 2, 1024)
\* fields of a bank that interest may move, besides the maintenance weights of C23
Moves == {"di", "bi", "ilu", "au", "sp", "rlu", "ics", "itu", "r0", "r1", "mr", "fee",
          "maw", "mlw", "msd", "msa", "msl", "mss", "mse"}
IndexFields == {"di", "bi", "ilu", "rlu", "au", "ics", "itu"}
CurveFields == {"r0", "r1", "mr", "u0", "u1", "zur", "adj", "lfr"}

UpdateRules(i, L) ==
  LET t == L.op.t  pre == L.pre  post == L.post
      x == Interest2(pre, t)
      b0 == Bank0(pre, t)
      tolI == Add(Mul(Add(TDiv(Max(b0.bi, b0.di), One), 1), 16), 16)
      r == Rescaled(b0, x.au, pre.now)
      charged == FxMul(Sub(Bank0(post, t).bi, b0.bi), x.totB)
      credited == FxMul(Sub(Bank0(post, t).di, b0.di), x.totD)
      fee == Sub(Bank0(post, t).fee, b0.fee)
      \* one unit of each index times the totals
      tol == Add(Mul(Add(TDiv(x.totB, One), TDiv(x.totD, One)), 4), Mul(tolI, 4))
  IN /\ \A b \in Banks(post, t) : LET y == Bank(post, t, b) IN
          /\ Rule(i, "C02 deposit index accrues the deposit rate", Within(y.di, x.di, tolI))
          /\ Rule(i, "C02 borrow index accrues the borrow rate and fee", Within(y.bi, x.bi, tolI))
          /\ Rule(i, "C02 indexes never fall by interest", Ge(y.di, Bank(pre, t, b).di) /\ Ge(y.bi, Bank(pre, t, b).bi))
          /\ Rule(i, "C02 update time", Eq(y.ilu, pre.now))
          /\ Rule(i, "C02 average utilization", Fuzzy(y.au, x.au))
          /\ Rule(i, "C02 rate curve rescaling",
                  /\ Eq(y.rlu, r.rlu) /\ Fuzzy(y.ics, r.ics) /\ Fuzzy(y.itu, r.itu)
                  /\ Fuzzy(y.r0, r.r0) /\ Fuzzy(y.r1, r.r1) /\ Fuzzy(y.mr, r.mr))
          /\ Rule(i, "C02 an interest update changes nothing else", Changed(Bank(pre, t, b), y) \subseteq Moves)
          /\ b # 0 => Rule(i, "C02 the fee is booked once", Eq(y.fee, Bank(pre, t, b).fee))
     /\ Rule(i, "C02 protocol fee", Within(fee, x.fee, 64))
     /\ Rule(i, "C02 borrowers pay at least what depositors and the protocol get", Ge(Add(charged, tol), Add(credited, fee)))
     /\ Le(x.nb, x.nd) => Rule(i, "C02 borrowers pay exactly what depositors and the protocol get", Within(charged, Add(credited, fee), tol))

OpsRun(L) == IF L.op.op = "batch" THEN Range(L.op.ops) ELSE IF L.op.op = "via_proxy" THEN {L.op.inner} ELSE {L.op}
C02_Rules(i) ==
  LET L == Trace[i] op == L.op pre == L.pre post == L.post IN
  /\ (L.ok = 1 /\ op.op = "update_index") =>
       IF PrimaryOk(pre, op.t) THEN UpdateRules(i, L)
       ELSE Rule(i, "C02 no interest with a bad oracle", pre.B = post.B /\ G(op, "resilient", 0) = 1)
  /\ (L.ok = 0 /\ op.op = "update_index") =>
       Rule(i, "C02 update refused only for a reason",
            ~PrimaryOk(pre, op.t) \/ L.code = 6042 \/ L.sub = 1 \/ Bank0(pre, op.t).live # 1)
  /\ (L.ok = 1 /\ op.op \in {"batch", "via_proxy"} /\ \E x \in OpsRun(L) : x.op = "update_index") =>
         Rule(i, "C02 an update is not combined with other instructions",
              op.op = "batch" /\ \A x \in OpsRun(L) : x.op \in {"update_index", "compute_budget"})
  /\ (L.ok = 1 /\ op.op \notin {"init", "batch", "via_proxy"}) =>
     \A t \in Toks(pre) : \A b \in BothBanks(L, t) :
       (pre.B[t + 1][b + 1] # post.B[t + 1][b + 1] /\ ~(op.op = "update_index" /\ op.t = t)) =>
         LET c == Changed(Bank(pre, t, b), Bank(post, t, b)) IN
         /\ Rule(i, "C02 only updates move the indexes",
                 c \cap IndexFields \subseteq (IF op.op = "liq_bankruptcy" THEN {"di"} ELSE IF op.op = "token_edit" THEN IndexFields \ {"di", "bi", "ilu"} ELSE {}))
         /\ Rule(i, "C02 only edits change the curve", (op.op = "token_edit" /\ op.t = t) \/ c \cap CurveFields = {})
  /\ (L.ok = 1 /\ pre.B # post.B) =>
     \A t \in Toks(post) : \A b \in Banks(post, t) :
       Rule(i, "C02 all banks of a token carry the same indexes",
            Eq(Bank(post, t, b).di, Bank0(post, t).di) /\ Eq(Bank(post, t, b).bi, Bank0(post, t).bi) /\ Eq(Bank(post, t, b).ilu, Bank0(post, t).ilu))
C02_Line(i) ==
  LET L == Trace[i] IN
  /\ C02_Rules(i)
  /\ TokEdits(i, L, "C02", "interest parameters", {"u0", "u1", "adj", "zur", "itu"}, {}) /\ TokFixed(i, L, "C02", "interest parameters", {"u0", "u1", "adj", "zur", "itu"})
=============================================================================
