-------------------------------- MODULE C30 --------------------------------
(* What the client library and the bots make of the chain's accounts: the
   registry of the group, the accounts listed for a health computation, the
   health computed from them, the accounts worth settling pnl with, and what
   the crank sends for an event queue.  A "client" line carries the answers;
   the state does not change. *)
EXTENDS C29, C13
NoKey == <<"none", 0, 0>>
SeqSet(q) == {q[k] : k \in DOMAIN q}
Uniq(q) == Cardinality(SeqSet(q)) = Len(q)
ListedToks(s) == {t \in Toks(s) : Tok(s, t).live = 1}
----------------------------------------------------------------------------
\* -- the registry -----------------------------------------------------------------
BankSeq(s, t) == [k \in 1..Cardinality(Banks(s, t)) |-> CHOOSE b \in Banks(s, t) : Cardinality({c \in Banks(s, t) : c < b}) = k - 1]
IsEmptied(s, t) == \A b \in Banks(s, t) : LET k == Bank(s, t, b) IN
  Eq(FxMul(k.id, k.di), 0) /\ Eq(FxMul(k.ib, k.bi), 0) /\ Eq(k.ro, 1)
TokenEntry(s, t, e) ==
  LET bk == Bank0(s, t)  tk == Tok(s, t) IN
  /\ Eq(e.key, tk.i) /\ Eq(e.i, tk.i) /\ e.grp = <<"group", 0, 0>> /\ e.info = <<"info", t, 0>>
  /\ tk.keys = 1 => e.mint = <<"mint", t, 0>>
  /\ Eq(e.dec, bk.dec)
  /\ (e.orc = <<"oracle", t, 0>>) = (tk.orc = 1)
  /\ Eq(e.ocf, bk.ocf) /\ Eq(e.oms, bk.oms)
  /\ tk.bv = 1 => /\ e.bv = [k \in DOMAIN BankSeq(s, t) |-> <<"bank", t, BankSeq(s, t)[k]>>]
                  /\ e.vv = [k \in DOMAIN BankSeq(s, t) |-> <<"vault", t, BankSeq(s, t)[k]>>]
FallbackEntry(s, t, e, fos) ==
  /\ (e.fb = NoKey) = (Tok(s, t).fbo = 0)
  /\ (Tok(s, t).fbo = 1 /\ Bank0(s, t).fbo = 1) => e.fb = fos[t + 1]
  /\ e.fq = NoKey
SpotEntry(s, m, e) ==
  LET sp == Spot(s, m) IN
  /\ Eq(e.key, sp.m) /\ e.prog = <<"dexprogram", 0, 0>> /\ e.dex = <<"dex", m, 0>>
  /\ Eq(e.bi, sp.bi) /\ Eq(e.qi, sp.qi) /\ Eq(e.bl, sp.bl) /\ Eq(e.ql, sp.ql)
  /\ e.bids = <<"sbids", m, 0>> /\ e.asks = <<"sasks", m, 0>> /\ e.eq = <<"seq", m, 0>> /\ e.req = <<"sreq", m, 0>>
  /\ e.bv = <<"sbase", m, 0>> /\ e.qv = <<"squote", m, 0>> /\ e.sg = <<"ssigner", m, 0>>
PerpEntry(s, p, e) ==
  LET m == Perp(s, p) IN
  /\ Eq(e.key, m.i) /\ Eq(e.i, m.i) /\ ((Tok(s, m.st).live = 1 /\ Eq(Tok(s, m.st).i, m.st)) => Eq(e.st, m.st)) /\ e.grp = <<"group", 0, 0>>
  /\ m.keys = 1 => e.bids = <<"bids", p, 0>> /\ e.asks = <<"asks", p, 0>> /\ e.eq = <<"eq", p, 0>>
  /\ (e.orc = <<"poracle", p, 0>>) = (m.orc = 1)
  /\ Eq(e.bl, m.bl) /\ Eq(e.ql, m.ql) /\ Eq(e.dec, m.dec) /\ Eq(e.iow, m.iow)
Registry(i, s, x, fos, nms) ==
  /\ Rule(i, "C30 the registry names the tokens", \A t \in ListedToks(s) : \A k \in DOMAIN x.t : x.t[k].info = <<"info", t, 0>> => x.t[k].name = nms[t + 1])
  /\ Rule(i, "C30 a token is found by its name",
       \A k \in DOMAIN x.t : \E j \in DOMAIN x.t : x.t[j].name = x.t[k].name /\ Eq(x.t[j].i, x.tn[k]))
  /\ Rule(i, "C30 the registry lists every token once", Len(x.t) = Cardinality(ListedToks(s)) /\
       \A t \in ListedToks(s) : \E k \in DOMAIN x.t : x.t[k].info = <<"info", t, 0>>)
  /\ \A t \in ListedToks(s) : \A k \in DOMAIN x.t : x.t[k].info = <<"info", t, 0>> =>
       /\ Rule(i, "C30 the registry describes a token as it is registered", TokenEntry(s, t, x.t[k]))
       /\ Rule(i, "C30 the registry knows a token's fallback oracle", FallbackEntry(s, t, x.t[k], fos))
       /\ Rule(i, "C30 a token counts as closed when empty and reduce-only", (x.t[k].closed = 1) = IsEmptied(s, t))
  /\ Rule(i, "C30 the registry lists every spot market once", Len(x.s) = Cardinality(Spots(s)) /\
       \A m \in Spots(s) : \E k \in DOMAIN x.s : x.s[k].spot = <<"spot", m, 0>> /\ SpotEntry(s, m, x.s[k]))
  /\ Rule(i, "C30 the registry lists every perp market once", Len(x.p) = Cardinality(Perps(s)) /\
       \A p \in Perps(s) : \E k \in DOMAIN x.p : x.p[k].perp = <<"perp", p, 0>> /\ PerpEntry(s, p, x.p[k]))
\* what a client compares to notice a change
Facts(x) == <<x.t, x.s, x.p>>
Changes(i, x) ==
  LET a == x.ctx.v  b == x.ctx2.v  same == Same(Facts(a), Facts(b)) IN
  /\ "chg" \in DOMAIN x => Rule(i, "C30 a changed registry is noticed, an unchanged one is not",
       x.chg.r = "ok" /\ x.chg.v = IF same THEN <<0, 0, 0>> ELSE <<1, 1, 0>>)
  /\ "new" \in DOMAIN x => Rule(i, "C30 new listings are noticed",
       LET New(q, r) == IF Len(r) > Len(q) THEN 1 ELSE 0 IN
       x.new.r = "ok" /\ x.new.v = <<New(a.t, b.t), New(a.s, b.s), New(a.p, b.p)>>)
----------------------------------------------------------------------------
\* -- the accounts listed for a health computation ---------------------------------
FirstFree(q) == LET F == {k \in DOMAIN q : q[k] = -1} IN IF F = {} THEN 0 ELSE CHOOSE k \in F : \A j \in F : k <= j
Held(q, x) == x \in SeqSet(q)
Room(q, x) == Held(q, x) \/ FirstFree(q) # 0
Put(q, x) == IF Held(q, x) THEN q ELSE [q EXCEPT ![FirstFree(q)] = x]
RECURSIVE PutAll(_, _)
PutAll(q, xs) == IF xs = <<>> THEN <<q, TRUE>>
                 ELSE IF ~Room(q, Head(xs)) THEN <<q, FALSE>> ELSE PutAll(Put(q, Head(xs)), Tail(xs))
\* perp positions come with one in their settle token; <<perps, tokens, fits>>
RECURSIVE PutPerps(_, _, _, _)
PutPerps(s, pq, tq, ps) ==
  IF ps = <<>> THEN <<pq, tq, TRUE>>
  ELSE LET p == Head(ps) IN
       IF Held(pq, p) THEN PutPerps(s, pq, tq, Tail(ps))
       ELSE IF FirstFree(pq) = 0 \/ ~Room(tq, Perp(s, p).st) THEN <<pq, tq, FALSE>>
       ELSE PutPerps(s, Put(pq, p), Put(tq, Perp(s, p).st), Tail(ps))
Used(q) == SelectSeq(q, LAMBDA x : x # -1)
TokSlots(A) == [k \in DOMAIN A.tp |-> A.tp[k].i]
PerpSlots(A) == [k \in DOMAIN A.pp |-> A.pp[k].m]
\* fallback oracles a configuration makes available
Offered(s, op, t) ==
  /\ Tok(s, t).fbo = 1
  /\ CASE op.fbc = 0 -> FALSE
       [] op.fbc = 1 -> Bank0(s, t).fbo = 1 /\ t \in SeqSet(op.fbs)
       [] op.fbc = 2 -> Ora(s, t).none = 0 /\ ~PrimaryOk(s, t)
       [] OTHER -> TRUE
RECURSIVE Dedup(_)
Dedup(q) == IF q = <<>> THEN <<>> ELSE <<Head(q)>> \o Dedup(SelectSeq(Tail(q), LAMBDA x : x # Head(q)))
\* (oracles and fallbacks all of their own in the recorded worlds, but for strangers)
\* (x.whole: no position is in something that was delisted; positions carry the program's own
\* numbers, which are those of this state unless something was registered with a chosen one)
Plain(s) ==
  /\ \A p \in Perps(s) : Tok(s, Perp(s, p).st).live = 1 /\ Eq(Perp(s, p).i, p)
  /\ \A t \in ListedToks(s) : Eq(Tok(s, t).i, t)
  /\ \A m \in Spots(s) : Eq(Spot(s, m).m, m)
  /\ \A t \in ListedToks(s) : Tok(s, t).orc = 1 /\ Bank0(s, t).fbo # 2
Meta(k, w) == [k |-> k, s |-> 0, w |-> w]
Listed(s, op, fos, toks, perps, oos) ==
  LET offered == SelectSeq(toks, LAMBDA t : Offered(s, op, t))
      fbs == Dedup([k \in DOMAIN offered |-> fos[offered[k] + 1]]) IN
  [k \in DOMAIN toks |-> Meta(<<"bank", toks[k], 0>>, IF toks[k] \in SeqSet(op.wr) THEN 1 ELSE 0)]
  \o [k \in DOMAIN toks |-> Meta(<<"oracle", toks[k], 0>>, 0)]
  \o [k \in DOMAIN perps |-> Meta(<<"perp", perps[k], 0>>, 0)]
  \o [k \in DOMAIN perps |-> Meta(<<"poracle", perps[k], 0>>, 0)]
  \o [k \in DOMAIN oos |-> Meta(<<"oo", oos[k][1], oos[k][2]>>, 0)]
  \o [k \in DOMAIN fbs |-> Meta(fbs[k], 0)]
OoSeq(s, a) == LET m == SpotSeq(Acc(s, a)) IN [k \in DOMAIN m |-> <<a, m[k]>>]
OneAccount(i, s, op, fos, x) ==
  LET A == Acc(s, op.a)
      T == PutAll(TokSlots(A), op.ts \o op.wr)
      P == PutPerps(s, PerpSlots(A), T[1], op.ps)
  IN IF ~T[2] THEN Rule(i, "C30 no accounts for more tokens than an account can hold", x.r = "error")
     ELSE IF ~P[3] THEN Rule(i, "C30 no accounts for more perps than an account can hold", x.r = "error")
     ELSE /\ Rule(i, "C30 an account's health accounts are listed", x.r = "ok")
          /\ x.r = "ok" => Rule(i, "C30 health accounts are the positions' banks, oracles, markets and open orders in order, then fallback oracles",
                             Same(x.v.m, Listed(s, op, fos, Used(P[2]), Used(P[1]), OoSeq(s, op.a))))
\* accounts of two accounts: each section without repetitions, oracles matching banks
From(q, n) == [k \in 1..(Len(q) - n) |-> q[n + k]]
UnionSeq(q, r) == q \o SelectSeq(r, LAMBDA x : x \notin SeqSet(q))
TwoAccounts(i, s, op, fos, x) ==
  LET A == Acc(s, op.a)  B == Acc(s, op.b)
      toks == Dedup(TokSeq(B) \o TokSeq(A) \o op.ts)
      perps == Dedup(PerpSeq(B) \o PerpSeq(A))
      oos == OoSeq(s, op.b) \o OoSeq(s, op.a)
      m == x.v.m
      n == Len(toks)  np == Len(perps)  no == Len(oos)
      want == Listed(s, op, fos, toks, perps, oos)
      Sec(q, f, l) == SubSeq(q, f, l)
  IN /\ Rule(i, "C30 two accounts' health accounts are listed", x.r = "ok")
     /\ x.r = "ok" =>
        /\ Rule(i, "C30 two accounts' health accounts are the union of theirs", Len(m) = Len(want) /\
             \A b \in {<<1, n>>, <<n + 1, 2 * n>>, <<2 * n + 1, 2 * n + np>>, <<2 * n + np + 1, 2 * n + 2 * np>>,
                       <<2 * n + 2 * np + 1, 2 * n + 2 * np + no>>, <<2 * n + 2 * np + no + 1, Len(want)>>} :
                SeqSet(Sec(m, b[1], b[2])) = SeqSet(Sec(want, b[1], b[2])))
        /\ Len(m) = Len(want) => Rule(i, "C30 two accounts' oracles are in the order of their banks and markets",
             /\ \A k \in 1..n : m[n + k].k[2] = m[k].k[2]
             /\ \A k \in 1..np : m[2 * n + np + k].k[2] = m[2 * n + k].k[2])
----------------------------------------------------------------------------
\* -- health as a client computes it -------------------------------------------------
\* clients do not insist on recent oracles, and look at the wall clock; fallbacks only if offered
Seen(s, offered(_)) ==
  LET r == [s EXCEPT !.slot = 0, !.now = WallClock]
      out == {t \in ListedToks(s) : ~PrimaryOk(r, t) /\ ~offered(t)}
  IN [drop |-> out] @@ r
SeenBy(s, op) == Seen(s, LAMBDA t : Offered(s, op, t))
Panicked(s, a) == \E ty \in {"i", "m", "e"} : Eq(Hlt(s, a)[ty], 2)
ClientHealth(i, r, a, what, x) ==
  IF ~Computable(r, a, FALSE) THEN Rule(i, "C30 no health without prices" \o what, x.r = "error")
  ELSE /\ Rule(i, "C30 health is computed" \o what, x.r = "ok")
       /\ x.r = "ok" => Rule(i, "C30 health is what the program computes" \o what,
            \A ty \in {"i", "m", "e"} : LET g == HealthG(r, a, ty) IN HNear(x.v[ty], g[1], g[2]))
----------------------------------------------------------------------------
\* -- candidates for settlement --------------------------------------------------------
Settleable(r, a, p) ==
  LET m == Perp(r, p)  F == UpdateWindow(SettleFunding(PPos(Acc(r, a), p), m), m, WallClock)
  IN ApplyLimit(F, m, PnlAt(F, m, POra(r, p).px))
\* of a loss, only as much as the account's health allows
Payable(r, a, p, v) ==
  LET e == PerpMaxSettle(r, a, Perp(r, p).st) IN IF IsPos(e) THEN Max(v, NegB(e)) ELSE 0
PayTol(r, a, p) == Add(MaxSettleTol(r, a, Perp(r, p).st), 1024)
Candidates(i, s, op, x) ==
  LET r == SeenBy(s, op)  p == op.p
      C == {a \in Accs(s) : HasPerp(Acc(s, a), p)}
      lim == TLCEval([a \in C |-> Settleable(r, a, p)])
      E == {a \in C : IF op.neg = 1 THEN IsNeg(lim[a]) ELSE IsPos(lim[a])}
      known == \A a \in E : Computable(r, a, FALSE)
      \* <<value, tolerance>>
      val == TLCEval([a \in E |-> IF op.neg = 1 THEN <<Payable(r, a, p, lim[a]), PayTol(r, a, p)>> ELSE <<lim[a], 0>>])
      v == x.v
      Ahead(a, b) == IF op.neg = 1 THEN Le(a, b) ELSE Ge(a, b)
      Off(a, d) == IF op.neg = 1 THEN Sub(a, d) ELSE Add(a, d)
  IN IF ~POk(r, p) THEN Rule(i, "C30 no candidates without a price", x.r = "error")
     ELSE IF op.neg = 1 /\ ~known THEN TRUE
     ELSE /\ Rule(i, "C30 candidates for settlement are found", x.r = "ok")
          /\ x.r = "ok" =>
             /\ Rule(i, "C30 as many candidates as asked for, as far as there are", Len(v) = IF Cardinality(E) < op.count THEN Cardinality(E) ELSE op.count)
             /\ Rule(i, "C30 candidates are different accounts with pnl of the asked sign",
                  Uniq([k \in DOMAIN v |-> v[k].a]) /\ \A k \in DOMAIN v : v[k].a[1] = "acc" /\ v[k].a[2] \in E)
             /\ (\A k \in DOMAIN v : v[k].a[1] = "acc" /\ v[k].a[2] \in E) =>
                /\ Rule(i, "C30 a candidate's pnl is what could be settled", \A k \in DOMAIN v : LET e == val[v[k].a[2]] IN Within(v[k].v, e[1], e[2]))
                /\ Rule(i, "C30 candidates come in order", \A k \in 1..(Len(v) - 1) : Ahead(v[k].v, v[k + 1].v))
                /\ v # <<>> => Rule(i, "C30 no better candidate is left out", LET w == v[Len(v)].v IN
                     \A a \in E : (\A k \in DOMAIN v : v[k].a[2] # a) => Ahead(Off(w, val[a][2]), val[a][1]))
----------------------------------------------------------------------------
\* -- the crank ----------------------------------------------------------------------
EventAccs(e) == IF e.y = "fill" THEN {e.mk, e.tk} ELSE {e.mk}
Crank(i, s, op, x) ==
  LET q == EQ(s, op.p)  n == Len(q.ev)  c == IF n < 8 THEN n ELSE 8  \* as many as the program takes at once
      busy == n > 2 \/ \E k \in DOMAIN q.ev : q.ev[k].y = "fill"
      who == UNION {EventAccs(q.ev[k]) : k \in 1..c}
      v == x.v
  IN /\ Rule(i, "C30 the crank looks at a queue", x.r = "ok")
     /\ x.r = "ok" =>
        /\ Rule(i, "C30 the crank acts on fills or a backlog, and only then", IF busy THEN v.sent = 1 ELSE v.sent = 0 /\ v.throttled = 1)
        /\ v.sent = 1 =>
           /\ Rule(i, "C30 the crank names market and queue, and nobody signs",
                /\ SubSeq(v.m, 1, 3) = <<Meta(<<"group", 0, 0>>, 0), Meta(<<"perp", op.p, 0>>, 1), Meta(<<"eq", op.p, 0>>, 1)>>)
           /\ Rule(i, "C30 the crank brings the accounts of the next events, writable",
                LET rest == From(v.m, 3) IN
                /\ Uniq(rest)
                /\ \A k \in DOMAIN rest : rest[k].w = 1 /\ rest[k].s = 0
                /\ \A a \in who : a >= 0 => \E k \in DOMAIN rest : rest[k].k = <<"acc", a, 0>>)
           /\ Rule(i, "C30 the crank's instruction consumes the next events",
                IF v.ok = 1 THEN \/ v.n0 - v.n1 = c
                                 \* an event of an account that is gone is where it stops
                                 \/ \E a \in who : a < 0 \/ Acc(s, a).live = 0
                ELSE v.err = "code:6042")
----------------------------------------------------------------------------
Client(i, s, op, x) ==
  /\ Rule(i, "C30 the registry can be read", x.ctx.r = "ok")
  /\ x.ctx.r = "ok" =>
     /\ Registry(i, s, x.ctx.v, x.fos, x.nms)
     /\ "ctxg" \in DOMAIN x => Rule(i, "C30 the registry does not depend on fallback oracles' accounts", x.ctxg.r = "ok" /\ Same(Facts(x.ctxg.v), Facts(x.ctx.v)))
     /\ "ctx2" \in DOMAIN x => /\ Rule(i, "C30 the registry can be read", x.ctx2.r = "ok")
                               /\ x.ctx2.r = "ok" => Changes(i, x)
     /\ ("one" \in DOMAIN x /\ Live(s, op.a) /\ x.whole = 1 /\ Plain(s)) =>
        /\ OneAccount(i, s, op, x.fos, x.one)
        /\ ~Panicked(s, op.a) =>
           /\ ClientHealth(i, SeenBy(s, op), op.a, "", x.h)
           /\ ClientHealth(i, Seen(s, LAMBDA t : FALSE), op.a, " (from a snapshot)", x.hs)
     /\ ("two" \in DOMAIN x /\ Live(s, op.a) /\ Live(s, op.b) /\ x.whole = 1 /\ Plain(s)) => TwoAccounts(i, s, op, x.fos, x.two)
     /\ ("top" \in DOMAIN x /\ x.whole = 1 /\ Plain(s) /\ Perp(s, op.p).orc = 1) => Candidates(i, s, op, x.top)
     /\ "crank" \in DOMAIN x => Crank(i, s, op, x.crank)
C30_Line(i) ==
  LET L == Trace[i] IN
  (L.op.op = "client" /\ "x" \in DOMAIN L /\ "ctx" \in DOMAIN L.x) => Client(i, L.pre, L.op, L.x)
=============================================================================
