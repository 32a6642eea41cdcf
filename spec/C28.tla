-------------------------------- MODULE C28 --------------------------------
(* The registry: what is listed, by whom, with which configuration, and what
   administration changes.  A listing or an edit leaves exactly the configuration
   asked for and touches nothing else. *)
EXTENDS Oracle, StablePrice, Edits
IndexStart == Mul(1000000, One)
U64Top == "18446744073709551615"
F64Top == "170141183460469231731687303715884105727"
U16Max == 65535
Ratio(n, d) == FDiv(Add(Mul(2, Mul(n, One)), d), 2 * d)
Week == 604800
\* ------------------------------------------------------------- who and when
By(op) == G(op, "by", "admin")
IsAdmin(L) == By(L.op) = Grp(L.pre).adm
IsFast(L) == By(L.op) = Grp(L.pre).fast
Enabled(L, g) == g \notin Range(Grp(L.pre).gate)
Testing(L) == Grp(L.pre).test = 1
\* ----------------------------------------------------------- what is in use
LiveToks(s) == {t \in Toks(s) : Tok(s, t).live = 1}
TokIndexUsed(s, x) == \E t \in LiveToks(s) : Tok(s, t).i = x
PerpIndexUsed(s, x) == \E p \in Perps(s) : Perp(s, p).i = x
SpotIndexUsed(s, x) == \E p \in Spots(s) : Spot(s, p).m = x
\* ------------------------------------------------------------- configuration
\* what the parameters of a token must satisfy
Sound(b) ==
  /\ Ge(b.ocf, 0) /\ Ge(b.u0, 0) /\ Ge(b.u1, b.u0) /\ Le(b.u1, One) /\ Ge(b.r0, 0) /\ Ge(b.r1, 0) /\ Ge(b.mr, 0)
  /\ Ge(b.adj, 0) /\ Ge(b.lfr, 0) /\ Ge(b.lofr, 0) /\ Ge(b.sp.dg, 0) /\ Ge(b.sp.sg, 0)
  /\ Ge(b.iaw, 0) /\ Ge(b.maw, b.iaw) /\ Ge(b.mlw, 0) /\ Ge(b.ilw, b.mlw) /\ Ge(b.lf, 0)
  /\ Ge(b.minv, 0) /\ Le(b.minv, One) /\ Ge(b.nbl, -1) /\ Gt(b.bws, 0) /\ Gt(b.dws, 0) /\ Le(b.ro, 2)
  /\ Ge(b.tt, 0) /\ Ge(b.tm, 0) /\ Ge(b.fls, 0) /\ Ge(b.ics, One) /\ Ge(b.itu, 0) /\ Le(b.itu, One)
  /\ Ge(b.msd, 0) /\ Ge(b.msa, 0) /\ Ge(b.msl, 0) /\ Ge(b.zur, 0) /\ Ge(b.plf, 0) /\ Ge(b.cfd, 0)
  /\ (b.dal = 1) => (b.ro \in {1, 2} /\ Eq(b.maw, 0))
  /\ (b.fw = 1) => (b.ro = 1 /\ b.dal = 1)
\* the stable price starts at the oracle's price, or is armed to start with the first one
SpNew(di, dg, sg, good, px, now) ==
  LET z == [p |-> 0, pb |-> 0, lu |-> 0, dap |-> 0, dat |-> 0, di |-> di, li |-> 0, rs |-> 1, dg |-> dg, sg |-> sg, dp |-> [k \in 1..SpSlots |-> 0]] IN
  IF good THEN SpReset(z, px, now) ELSE z
\* a bank without history
Fresh(t, idx, dec, now, nbz, fbo) ==
  [live |-> 1, keys |-> 1, orc |-> 1, i |-> idx, dec |-> dec, num |-> 0, di |-> IndexStart, bi |-> IndexStart, id |-> 0, ib |-> 0,
   ilu |-> now, rlu |-> now, au |-> 0, fee |-> 0, lfee |-> 0, cfee |-> 0, dust |-> 0, fli |-> U64Top, fla |-> 0, nb |-> 0,
   nbw |-> IF Eq(nbz, 0) THEN -1 ELSE Mul(FDiv(now, nbz), nbz), fwd |-> 0, pst |-> 0, mss |-> 0, mse |-> 0, msd |-> 0, msa |-> 0, msl |-> 0, fbo |-> fbo, v |-> 0]
\* parameters that an edit may set but a listing leaves unset
Later == {"maint_weight_shift_start", "maint_weight_shift_end", "maint_weight_shift_asset_target", "maint_weight_shift_liab_target", "force_close", "force_withdraw"}
ListTable == {e \in TokTable : e[1] \notin Later}
Fallback(L) == IF G(L.op, "fb", "") = "none" \/ FbOra(L.pre, L.op.t).none = 1 THEN 0 ELSE 1
Junk(op) == G(op, "fb", "") = "junk"
Index(op, dflt) == G(op, "idx", dflt)
AsListed(L) ==
  LET op == L.op  t == op.t  now == L.pre.now  o == Ora(L.pre, t)
      cols == TLCEval([f \in {e[2] : e \in ListTable} |-> LET e == CHOOSE x \in ListTable : x[2] = f IN Arg(op, e)]) IN
  cols @@ [fc |-> 0, fw |-> 0, oms |-> G(op, "max_staleness_slots", -1), tier |-> op.tier,
           sp |-> SpNew(op.stable_price_delay_interval_seconds, op.stable_price_delay_growth_limit.f32, op.stable_price_growth_limit.f32,
                        OracleConfident(o, op.conf_filter.f32), o.px, now)]
       @@ Fresh(t, Index(op, t), Tok(L.pre, t).dec, now, op.net_borrow_limit_window_size_ts, Fallback(L))
\* the fixed configuration of a token listed without a vote
Trustless(L) ==
  LET op == L.op  t == op.t  now == L.pre.now  o == Ora(L.pre, t) IN
  [ocf |-> Mul(1000, One), oms |-> -1, adj |-> Ratio(4, 1000), u0 |-> Ratio(1, 2), r0 |-> Ratio(18, 1000), u1 |-> Ratio(3, 4), r1 |-> Ratio(5, 100),
   mr |-> Ratio(1, 2), lofr |-> Ratio(2, 1000), lfr |-> Ratio(5, 1000), maw |-> 0, iaw |-> 0, mlw |-> Ratio(14, 10), ilw |-> Ratio(18, 10),
   lf |-> Ratio(5, 100), plf |-> Ratio(5, 100), minv |-> Ratio(2, 10), nbz |-> 86400, nbl |-> "5000000000",
   bws |-> Mul("5000000000", One), dws |-> Mul("5000000000", One), ro |-> 2, fc |-> 0, fw |-> 0, dal |-> 1, tt |-> 0, tm |-> 0, fls |-> 0,
   itu |-> Ratio(1, 2), ics |-> Mul(4, One), dl |-> 0, zur |-> 0, cfd |-> 0, tier |-> "C",
   sp |-> SpNew(3600, "16888498225152", "84442497024", OracleConfident(o, Mul(1000, One)), o.px, now)]
  @@ Fresh(t, Index(op, t), Tok(L.pre, t).dec, now, 86400, Fallback(L))
\* every field agrees; the stable price up to floating point rounding
BankIs(b, x) == \A f \in DOMAIN x : IF f = "sp" THEN SpSame(x.sp, b.sp) ELSE Same(x[f], b[f])
Unlike(b, x) == {f \in DOMAIN x : IF f = "sp" THEN ~SpSame(x.sp, b.sp) ELSE ~Same(x[f], b[f])}
InfoIs(L, gif) ==
  LET op == L.op  m == Tok(L.post, op.t) IN
  m.live = 1 /\ m.keys = 1 /\ m.orc = 1 /\ m.bv = 1 /\ Eq(m.i, Index(op, op.t)) /\ m.nb = 1 /\ Eq(m.gif, gif) /\ m.fbo = Fallback(L) /\ Eq(m.reg, L.pre.now)
\* --------------------------------------------------------------------- frames
\* components that may differ: sets of token, perp and spot slots, wallets, and whether the group may
OnlyIn(L, g, ts, ps, ss, ws) ==
  LET a == L.pre  b == L.post IN
  /\ a.now = b.now /\ a.slot = b.slot /\ Eq(a.ins, b.ins) /\ (g \/ a.g = b.g)
  /\ a.O = b.O /\ a.F = b.F /\ a.PO = b.PO /\ a.A = b.A /\ a.OO = b.OO
  /\ \A t \in Toks(a) \ ts : a.T[t + 1] = b.T[t + 1] /\ a.B[t + 1] = b.B[t + 1]
  /\ \A p \in (0..(NPerp(a) - 1)) \ ps : a.P[p + 1] = b.P[p + 1] /\ a.BD[p + 1] = b.BD[p + 1] /\ a.AK[p + 1] = b.AK[p + 1] /\ a.EQ[p + 1] = b.EQ[p + 1]
  /\ \A p \in (0..(NSpot(a) - 1)) \ ss : a.S[p + 1] = b.S[p + 1]
  /\ \A k \in AllAccs(a) \ ws : a.W[k + 1] = b.W[k + 1]
GroupBut(a, b, fs) == \A f \in DOMAIN Grp(a) \ fs : Same(Grp(a)[f], Grp(b)[f])
\* --------------------------------------------------------------------- tokens
Register(i, L) ==
  LET op == L.op  t == op.t  x == Index(op, t)  want == AsListed(L)
      free == Tok(L.pre, t).live = 0 /\ ~TokIndexUsed(L.pre, x)
      sound == Sound(want) /\ ~Eq(want.nbz, 0) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin lists tokens", IsAdmin(L) /\ Enabled(L, 44))
     /\ Rule(i, "C28 a token and an index are listed once", free /\ Ne(x, U16Max))
     /\ Rule(i, "C28 unsound token parameters are refused", sound /\ ~Junk(op))
     /\ Rule(i, "C28 a new token has exactly the configuration asked for", BankIs(Bank(L.post, t, 0), want) /\ InfoIs(L, Bit(op["group_insurance_fund"])))
     /\ Rule(i, "C28 listing a token touches nothing else", OnlyIn(L, FALSE, {t}, {}, {}, {}))
  /\ L.ok = 0 => Rule(i, "C28 an admin can list a token with sound parameters",
                   ~(IsAdmin(L) /\ Enabled(L, 44) /\ free /\ Ne(x, U16Max) /\ sound /\ ~Junk(op)))
Quota(L) ==
  LET g == Grp(L.pre)  over == Ge(L.pre.now, Add(g.fli, Week)) IN
  [fli |-> IF over THEN Mul(FDiv(L.pre.now, Week), Week) ELSE g.fli, fln |-> IF over THEN 1 ELSE Add(g.fln, 1), ok |-> Le(IF over THEN 1 ELSE Add(g.fln, 1), g.fla)]
RegisterTrustless(i, L) ==
  LET op == L.op  t == op.t  x == Index(op, t)  q == Quota(L)
      free == Tok(L.pre, t).live = 0 /\ ~TokIndexUsed(L.pre, x) /\ Ne(x, U16Max) /\ Ne(x, 0)
      who == (IsAdmin(L) \/ IsFast(L)) /\ Enabled(L, 45) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the listing admins list tokens without a vote", who)
     /\ Rule(i, "C28 a token and an index are listed once, the quote token's never without a vote", free)
     /\ Rule(i, "C28 no more tokens per week than allowed are listed without a vote", q.ok)
     /\ Rule(i, "C28 a token listed without a vote gets the fixed careful configuration",
          BankIs(Bank(L.post, t, 0), Trustless(L)) /\ InfoIs(L, 0) /\ ~Junk(op))
     /\ Rule(i, "C28 such a listing counts", Eq(Grp(L.post).fli, q.fli) /\ Eq(Grp(L.post).fln, q.fln) /\ GroupBut(L.pre, L.post, {"fli", "fln"}))
     /\ Rule(i, "C28 listing a token touches nothing else", OnlyIn(L, TRUE, {t}, {}, {}, {}))
  /\ L.ok = 0 => Rule(i, "C28 a listing admin can list a token within the quota", ~(who /\ free /\ q.ok /\ ~Junk(op)))
\* a further bank: the configuration of the one it is made from, without its history
Copied == {"live", "keys", "orc", "fbo", "i", "dec", "di", "bi", "ilu", "rlu", "au", "adj", "u0", "r0", "u1", "r1", "mr", "zur", "lofr", "lfr", "maw", "iaw", "mlw", "ilw",
           "lf", "plf", "minv", "nbz", "nbw", "nbl", "bws", "dws", "ro", "fc", "dal", "fw", "tt", "tm", "fls", "itu", "ics", "mss", "mse", "msd", "msa", "msl", "dl", "cfd",
           "ocf", "oms", "sp", "tier"}
Emptied == {"id", "ib", "fee", "lfee", "cfee", "dust", "fwd", "fla", "nb", "pst", "v"}
AddBank(i, L) ==
  LET op == L.op  t == op.t  m == Tok(L.pre, t)  may == IsAdmin(L) /\ Enabled(L, 39) /\ Testing(L)
      from == Bank(L.pre, t, op.from)
      fits == m.live = 1 /\ op.num = m.nb /\ m.nb < 6 /\ op.from \in Banks(L.pre, t) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin of a test group adds banks", may)
     /\ Rule(i, "C28 banks are numbered in order", fits)
     /\ LET b == Bank(L.post, t, op.num) IN
        /\ Rule(i, "C28 a further bank has the configuration of its token", \A f \in Copied : Same(b[f], from[f]))
        /\ Rule(i, "C28 a further bank starts without balances", Eq(b.num, op.num) /\ Eq(b.fli, U64Top) /\ \A f \in Emptied : Eq(b[f], 0))
        /\ Rule(i, "C28 every field of a bank is accounted for", DOMAIN b = Copied \cup Emptied \cup {"num", "fli"})
     /\ Rule(i, "C28 the token knows its new bank", Tok(L.post, t).nb = m.nb + 1 /\ Tok(L.post, t).bv = 1 /\ \A f \in DOMAIN m \ {"nb", "bv"} : Same(m[f], Tok(L.post, t)[f]))
     /\ Rule(i, "C28 adding a bank touches nothing else", OnlyIn(L, FALSE, {t}, {}, {}, {}) /\ \A k \in Banks(L.pre, t) : L.pre.B[t + 1][k + 1] = L.post.B[t + 1][k + 1])
  /\ L.ok = 0 => Rule(i, "C28 an admin can add a bank", ~(may /\ fits))
Deregister(i, L) ==
  LET op == L.op  t == op.t  may == IsAdmin(L) /\ Enabled(L, 41) /\ Testing(L)
      all == SumSeq([k \in 1..NBank(L.pre, t) |-> Bank(L.pre, t, k - 1).v]) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin of a test group takes tokens off", may)
     /\ Rule(i, "C28 a token taken off is gone, what was left goes to the named wallet",
          /\ Tok(L.post, t).live = 0 /\ \A k \in 0..(NBank(L.post, t) - 1) : Bank(L.post, t, k).live = 0 /\ Eq(Bank(L.post, t, k).v, 0)
          /\ Eq(Wal(L.post, op.a)[t + 1], Add(Wal(L.pre, op.a)[t + 1], all)))
     /\ Rule(i, "C28 taking a token off touches nothing else",
          OnlyIn(L, FALSE, {t}, {}, {}, AllAccs(L.pre)) /\ \A k \in AllAccs(L.pre) : \A u \in Toks(L.pre) \ {t} : Eq(Wal(L.pre, k)[u + 1], Wal(L.post, k)[u + 1]))
  /\ L.ok = 0 => Rule(i, "C28 an admin can take a token off",
                   ~(may /\ Tok(L.pre, t).live = 1 /\ Banks(L.pre, t) = 0..(NBank(L.pre, t) - 1) /\ Tok(L.pre, t).nb = NBank(L.pre, t)))
\* ---------------------------------------------------------------------- perps
PerpListTable == {e \in PerpTable : e[1] \notin {"reduce_only", "force_close"}}
NewPerp(L) ==
  LET op == L.op  p == op.p  o == POra(L.pre, p)
      cols == TLCEval([f \in {e[2] : e \in PerpListTable} |-> LET e == CHOOSE x \in PerpListTable : x[2] = f IN Arg(op, e)]) IN
  cols @@ [live |-> 1, keys |-> 1, orc |-> 1, i |-> Index(op, p), st |-> Perp(L.pre, p).st, oms |-> G(op, "max_staleness_slots", -1), bl |-> op.base_lot_size, ql |-> op.quote_lot_size,
           oi |-> 0, seq |-> 0, lf |-> 0, sf |-> 0, fa |-> 0, fs |-> 0, fwd |-> 0, alf |-> 0, ro |-> 0, fc |-> 0, reg |-> L.pre.now, flu |-> L.pre.now,
           sp |-> SpNew(3600, "16888498225152", "84442497024", OracleConfident(o, op.conf_filter.f32), o.px, L.pre.now)]
EmptySide(s) == s.live = 1 /\ s.fix.n = 0 /\ s.peg.n = 0 /\ s.fix.o = <<>> /\ s.peg.o = <<>> /\ s.bump = 0 /\ s.free = 0
PerpCreate(i, L) ==
  LET op == L.op  p == op.p  x == Index(op, p)
      may == IsAdmin(L) /\ Enabled(L, 17) /\ (Testing(L) \/ Grp(L.pre).ver > 1)
      free == Perp(L.pre, p).live = 0 /\ ~PerpIndexUsed(L.pre, x) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin creates perp markets", may)
     /\ Rule(i, "C28 a perp market and its index are created once", free)
     /\ Rule(i, "C28 a new perp market has exactly the configuration asked for, and no history", BankIs(Perp(L.post, p), NewPerp(L)))
     /\ Rule(i, "C28 every field of a perp market is accounted for", DOMAIN Perp(L.post, p) = DOMAIN NewPerp(L))
     /\ Rule(i, "C28 a new perp market has empty books and events", EmptySide(Bids(L.post, p)) /\ EmptySide(Asks(L.post, p)) /\
          (LET q == EQ(L.post, p) IN q.live = 1 /\ q.n = 0 /\ q.h = 0 /\ q.seq = 0 /\ q.ev = <<>>))
     /\ Rule(i, "C28 creating a perp market touches nothing else", OnlyIn(L, FALSE, {}, {p}, {}, {}))
  /\ L.ok = 0 => Rule(i, "C28 an admin can create a perp market", ~(may /\ free))
PerpClose(i, L) ==
  LET op == L.op  p == op.p  may == IsAdmin(L) /\ Enabled(L, 15) /\ Testing(L) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin of a test group closes perp markets", may)
     /\ Rule(i, "C28 a closed perp market is gone", Perp(L.post, p).live = 0 /\ Bids(L.post, p).live = 0 /\ Asks(L.post, p).live = 0 /\ EQ(L.post, p).live = 0)
     /\ Rule(i, "C28 closing a perp market touches nothing else", OnlyIn(L, FALSE, {}, {p}, {}, {}))
  /\ L.ok = 0 => Rule(i, "C28 an admin can close a perp market", ~(may /\ Perp(L.pre, p).live = 1))
\* ---------------------------------------------------------------- spot markets
Twice == Mul(19, One)
SpotRegister(i, L) ==
  LET op == L.op  s == op.s  S == Spot(L.pre, s)  x == Index(op, s)
      b == G(op, "base", S.tb)  q == G(op, "quote", S.tq)
      there == Tok(L.pre, b).live = 1 /\ Tok(L.pre, q).live = 1
      bb == Bank0(L.pre, b)  qb == Bank0(L.pre, q)
      may == (IsAdmin(L) \/ IsFast(L)) /\ Enabled(L, 34) /\ (Testing(L) \/ Grp(L.pre).ver > 0)
      free == S.live = 0 /\ ~SpotIndexUsed(L.pre, x)
      band == op.oracle_price_band.f32
      wide == bb.ro \in {1, 2} /\ Eq(bb.maw, 0) /\ Eq(qb.dws, F64Top) /\ Eq(qb.dl, 0)
      careful == IsAdmin(L) \/ Eq(band, IF wide THEN Twice ELSE One) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the listing admins register spot markets", may)
     /\ Rule(i, "C28 a spot market and its index are registered once", free)
     /\ Rule(i, "C28 a spot market trades the tokens it is registered for", there /\ b = S.tb /\ q = S.tq)
     /\ Rule(i, "C28 a fast listed market gets the fixed price band", careful)
     /\ LET T == Spot(L.post, s) IN
        Rule(i, "C28 a new spot market has exactly the configuration asked for",
          T.live = 1 /\ T.keys = 1 /\ Eq(T.m, x) /\ Eq(T.bi, bb.i) /\ Eq(T.qi, qb.i) /\ T.ro = 0 /\ T.fc = 0 /\ Eq(T.band, band))
     /\ Rule(i, "C28 registering a spot market touches nothing else", OnlyIn(L, FALSE, {}, {}, {s}, {}))
  /\ L.ok = 0 => Rule(i, "C28 a listing admin can register a spot market", ~(may /\ free /\ there /\ b = S.tb /\ q = S.tq /\ careful))
SpotDeregister(i, L) ==
  LET op == L.op  s == op.s  may == IsAdmin(L) /\ Enabled(L, 30) /\ Testing(L) IN
  /\ L.ok = 1 =>
     /\ Rule(i, "C28 only the admin of a test group takes spot markets off", may)
     /\ Rule(i, "C28 a spot market taken off is gone", Spot(L.post, s).live = 0)
     /\ Rule(i, "C28 taking a spot market off touches nothing else", OnlyIn(L, FALSE, {}, {}, {s}, {}))
  /\ L.ok = 0 => Rule(i, "C28 an admin can take a spot market off", ~(may /\ Spot(L.pre, s).live = 1))
\* ---------------------------------------------------------------------- edits
Has(op, k) == k \in DOMAIN op
Flag(op, k) == Has(op, k) /\ Bit(op[k]) = 1
SpArgs == {"stable_price_delay_interval_seconds", "stable_price_delay_growth_limit", "stable_price_growth_limit"}
SpTouched(op) == Flag(op, "reset_stable_price") \/ \E k \in SpArgs : Has(op, k)
SpEdit(op, sp, o, now) ==
  LET a == IF Flag(op, "reset_stable_price") THEN SpReset(sp, o.px, now) ELSE sp IN
  [a EXCEPT !.di = IF Has(op, "stable_price_delay_interval_seconds") THEN op.stable_price_delay_interval_seconds ELSE @,
            !.dg = IF Has(op, "stable_price_delay_growth_limit") THEN op.stable_price_delay_growth_limit.f32 ELSE @,
            !.sg = IF Has(op, "stable_price_growth_limit") THEN op.stable_price_growth_limit.f32 ELSE @]
ShiftCols == {"mss", "mse", "msd", "msa", "msl"}
TimedShift(op) == Has(op, "maint_weight_shift_start") \/ Has(op, "maint_weight_shift_end")
TokTouched(op) ==
  {e[2] : e \in {x \in TokTable : Has(op, x[1])}}
  \cup (IF Has(op, "conf_filter") THEN {"oms"} ELSE {}) \cup (IF SpTouched(op) THEN {"sp"} ELSE {})
  \cup (IF Flag(op, "reset_net_borrow_limit") THEN {"nb", "nbw"} ELSE {}) \cup (IF Has(op, "tier") THEN {"tier"} ELSE {})
  \cup (IF Flag(op, "set_fallback_oracle") THEN {"fbo"} ELSE {}) \cup (IF Has(op, "oracle") THEN {"orc"} ELSE {})
  \cup (IF Has(op, "maint_weight_shift_start") \/ Has(op, "maint_weight_shift_end") THEN {"msd"} ELSE {})
  \cup (IF Flag(op, "maint_weight_shift_abort") THEN {"mss", "mse", "msd", "msa", "msl", "maw", "mlw"} ELSE {})
\* what decides the last word where two arguments concern one field is C23's business
TokDirect(op) == {e \in TokTable : Has(op, e[1]) /\ ~Flag(op, "maint_weight_shift_abort")}
TokenEdit(i, L) ==
  LET op == L.op  t == op.t  m == Tok(L.pre, t)  n == Tok(L.post, t) IN
  L.ok = 1 =>
    /\ \A k \in BothBanks(L, t) :
         LET b == Bank(L.pre, t, k)  c == Bank(L.post, t, k)  touched == TokTouched(op) IN
         /\ Rule(i, "C28 a token edit changes what it names and nothing else", \A f \in DOMAIN b \ touched : Same(b[f], c[f]))
         /\ Rule(i, "C28 a token edit sets what it names to what is asked for",
              /\ \A e \in TokDirect(op) : Eq(c[e[2]], Arg(op, e))
              /\ Has(op, "conf_filter") => Eq(c.oms, G(op, "max_staleness_slots", -1))
              /\ Flag(op, "reset_net_borrow_limit") => (Eq(c.nb, 0) /\ Eq(c.nbw, 0))
              /\ Flag(op, "maint_weight_shift_abort") =>
                   \A f \in ShiftCols \ ({e[2] : e \in {x \in TokTable : Has(op, x[1])}} \cup (IF TimedShift(op) THEN {"msd"} ELSE {})) : Eq(c[f], 0)
              /\ Has(op, "tier") => c.tier = op.tier
              /\ SpTouched(op) => SpSame(SpEdit(op, b.sp, Ora(L.pre, t), L.pre.now), c.sp)
              /\ Flag(op, "set_fallback_oracle") => c.fbo = (IF FbOra(L.pre, t).none = 1 THEN 0 ELSE 1))
    /\ Rule(i, "C28 an edited token is sound", Sound(Bank0(L.post, t)))
    /\ Rule(i, "C28 a token edit changes the token's record as named",
         /\ Eq(n.gif, IF Has(op, "group_insurance_fund") THEN Bit(op.group_insurance_fund) ELSE m.gif)
         /\ \A f \in DOMAIN m \ ({"gif"} \cup (IF Flag(op, "set_fallback_oracle") THEN {"fbo"} ELSE {}) \cup (IF Has(op, "oracle") THEN {"orc"} ELSE {})) : Same(m[f], n[f]))
    /\ Rule(i, "C28 a token edit touches nothing else", OnlyIn(L, FALSE, {t}, {}, {}, {}))
PerpTouched(op) ==
  {e[2] : e \in {x \in PerpTable : Has(op, x[1])}} \cup (IF Has(op, "conf_filter") THEN {"oms"} ELSE {}) \cup (IF SpTouched(op) THEN {"sp"} ELSE {})
  \cup (IF Has(op, "oracle") THEN {"orc"} ELSE {})
PerpEdit(i, L) ==
  LET op == L.op  p == op.p  m == Perp(L.pre, p)  n == Perp(L.post, p) IN
  L.ok = 1 =>
    /\ Rule(i, "C28 a perp market edit changes what it names and nothing else",
         (\A f \in DOMAIN m \ PerpTouched(op) : Same(m[f], n[f])) /\ L.pre.BD = L.post.BD /\ L.pre.AK = L.post.AK /\ L.pre.EQ = L.post.EQ)
    /\ Rule(i, "C28 a perp market edit sets what it names to what is asked for",
         /\ \A e \in {x \in PerpTable : Has(op, x[1])} : Eq(n[e[2]], Arg(op, e))
         /\ Has(op, "conf_filter") => Eq(n.oms, G(op, "max_staleness_slots", -1))
         /\ SpTouched(op) => SpSame(SpEdit(op, m.sp, POra(L.pre, p), L.pre.now), n.sp))
    /\ Rule(i, "C28 a perp market edit touches nothing else", OnlyIn(L, FALSE, {}, {p}, {}, {}))
SpotTable == {<<"reduce_only", "ro", "i">>, <<"force_close", "fc", "i">>, <<"oracle_price_band", "band", "f32">>}
SpotEdit(i, L) ==
  LET op == L.op  s == op.s  m == Spot(L.pre, s)  n == Spot(L.post, s) IN
  L.ok = 1 =>
    /\ Rule(i, "C28 a spot market edit changes exactly what it names",
         (\A e \in SpotTable : Edited(op, e, m, n)) /\ \A f \in DOMAIN m \ {"ro", "fc", "band"} : Same(m[f], n[f]))
    /\ Rule(i, "C28 a market is closed by force only when it is reduce only", Flag(op, "force_close") => n.ro = 1)
    /\ Rule(i, "C28 a spot market edit touches nothing else", OnlyIn(L, FALSE, {}, {}, {s}, {}))
GroupTable == {<<"testing", "test", "i">>, <<"version", "ver", "i">>, <<"deposit_limit_quote", "dlq", "i">>, <<"buyback_fees", "bb", "i">>,
  <<"buyback_fees_bonus_factor", "bon", "f32">>, <<"mngo_token_index", "mngo", "i">>, <<"buyback_fees_expiry_interval", "bbx", "i">>,
  <<"allowed_fast_listings_per_interval", "fla", "i">>, <<"collateral_fee_interval", "cfi", "i">>}
GroupKeys == {<<"admin", "adm">>, <<"fast_listing_admin", "fast">>, <<"security_admin", "sec">>, <<"buyback_fees_swap_mango_account", "bba">>}
GroupEdit(i, L) ==
  LET op == L.op  a == Grp(L.pre)  b == Grp(L.post)  keys == {e[2] : e \in {x \in GroupKeys : Has(op, x[1])}}  cols == {e[2] : e \in GroupTable} IN
  L.ok = 1 =>
    /\ Rule(i, "C28 a group edit changes exactly what it names",
         (\A e \in GroupTable : Edited(op, e, a, b)) /\ \A f \in DOMAIN a \ (keys \cup cols) : Same(a[f], b[f]))
    /\ Rule(i, "C28 a group edit touches nothing else", OnlyIn(L, TRUE, {}, {}, {}, {}))
GateSet(i, L) ==
  LET op == L.op IN
  L.ok = 1 =>
    /\ Rule(i, "C28 the gates are set as asked for", Range(Grp(L.post).gate) = {k \in 0..127 : Eq(FMod(FDiv(op.gate, Pow2(k)), 2), 1)} /\ GroupBut(L.pre, L.post, {"gate"}))
    /\ Rule(i, "C28 setting gates touches nothing else", OnlyIn(L, TRUE, {}, {}, {}, {}))
\* ------------------------------------------------------------------ the registry
Consistent(i, L) ==
  LET s == L.post IN
  /\ (s.T # L.pre.T \/ s.B # L.pre.B \/ L.op.op = "init") =>
     /\ Rule(i, "C28 every listed token has an index of its own", \A t, u \in LiveToks(s) : (t # u) => Ne(Tok(s, t).i, Tok(s, u).i))
     /\ \A t \in LiveToks(s) : LET m == Tok(s, t) IN
          /\ Rule(i, "C28 a token's record names its banks and vaults in order", m.bv = 1 /\ m.keys = 1 /\ Banks(s, t) = 0..(m.nb - 1))
          /\ \A k \in Banks(s, t) : LET b == Bank(s, t, k) IN
               Rule(i, "C28 every bank belongs to its token", b.keys = 1 /\ Eq(b.i, m.i) /\ Eq(b.num, k) /\ Eq(b.dec, m.dec) /\ b.orc = m.orc /\ ((b.fbo = 0) <=> (m.fbo = 0)))
     /\ Rule(i, "C28 without a token there are no banks", \A t \in Toks(s) \ LiveToks(s) : Banks(s, t) = {})
  /\ (s.P # L.pre.P \/ L.op.op = "init") =>
     /\ Rule(i, "C28 every perp market has an index of its own", \A p, q \in Perps(s) : (p # q) => Ne(Perp(s, p).i, Perp(s, q).i))
     /\ Rule(i, "C28 every perp market has its books and events", \A p \in Perps(s) : Perp(s, p).keys = 1 /\ Bids(s, p).live = 1 /\ Asks(s, p).live = 1 /\ EQ(s, p).live = 1)
  /\ (s.S # L.pre.S \/ L.op.op = "init") =>
     Rule(i, "C28 every spot market has an index of its own", \A p, q \in Spots(s) : (p # q) => Ne(Spot(s, p).m, Spot(s, q).m))
\* the registry changes by these alone
Registrars == {"token_register", "token_register_trustless", "token_add_bank", "token_deregister", "token_edit", "init", "batch"}
Unlisted(i, L) ==
  /\ (L.op.op \notin Registrars /\ L.pre.T # L.post.T) => Rule(i, "C28 nothing else changes a token's record", FALSE)
  /\ (L.op.op \notin {"s3_register", "s3_edit", "s3_dereg", "init", "batch"} /\ L.pre.S # L.post.S) => Rule(i, "C28 nothing else changes a spot market", FALSE)
C28_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op IN
  /\ n = "token_register" => Register(i, L)
  /\ n = "token_register_trustless" => RegisterTrustless(i, L)
  /\ n = "token_add_bank" => AddBank(i, L)
  /\ n = "token_deregister" => Deregister(i, L)
  /\ n = "perp_create" => PerpCreate(i, L)
  /\ n = "perp_close" => PerpClose(i, L)
  /\ n = "s3_register" => SpotRegister(i, L)
  /\ n = "s3_dereg" => SpotDeregister(i, L)
  /\ n = "token_edit" => TokenEdit(i, L)
  /\ n = "perp_edit" => PerpEdit(i, L)
  /\ n = "s3_edit" => SpotEdit(i, L)
  /\ n = "group_edit" => GroupEdit(i, L)
  /\ n = "ix_gate_set" => GateSet(i, L)
  /\ Unlisted(i, L)
  /\ Consistent(i, L)
=============================================================================
