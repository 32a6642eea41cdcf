---------------------------- MODULE OrderbookFeed ----------------------------
(* The order book feed: what a service watching book sides and oracles over
   forking slots owes its clients. Its state is, per side, the versions it looked
   at last and the book it published last; a newer side or oracle makes it publish
   the difference, so that folding the updates gives the book again.            *)
EXTENDS Book, Json
CONSTANTS TraceFile, Stride  \* Stride is unused: each history is followed line by line
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, at, shown  \* the line; per market and side the line looked at last, and the line published last (0: none)
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)

World(i) == Trace[Trace[i].w0]
Markets(i) == 1..Len(World(i).markets)
Mkt(i, m) == World(i).markets[m]
MaxMarkets == 1..4
Spot(i, m) == Mkt(i, m).spot = 1
Sees(i, m) == Trace[i].s[m]
Newer(x, y) == Gt(x.slot, y.slot) \/ (Eq(x.slot, y.slot) /\ Gt(x.v, y.v))
NoVersion == [slot |-> 0, v |-> 0]
\* the side or (for a perp market) the oracle moved on
Looks(i, m, s) ==
  LET x == Sees(i, m)  b == at[m][s] IN
  /\ x.s[s].on = 1 /\ (Spot(i, m) \/ x.ora.on = 1)
  /\ \/ Newer(x.s[s], IF b = 0 THEN NoVersion ELSE Sees(b, m).s[s])
     \/ ~Spot(i, m) /\ Newer(x.ora, IF b = 0 THEN NoVersion ELSE Sees(b, m).ora)
Oracle(i, m) == World(i).snaps[Sees(i, m).ora.q]
Readable(i, m) == Spot(i, m) \/ Oracle(i, m).ok = 1
Takes(i, m, s) == Trace[i].y = "step" /\ m \in Markets(i) /\ Looks(i, m, s)
Init == l \in {i \in DOMAIN Trace : Trace[i].y = "world"} /\ at = [m \in MaxMarkets |-> <<0, 0>>] /\ shown = [m \in MaxMarkets |-> <<0, 0>>]
Next == /\ l < Len(Trace) /\ Trace[l + 1].y # "world" /\ l' = l + 1
        /\ at' = [m \in MaxMarkets |-> [s \in 1..2 |-> IF Takes(l, m, s) THEN l ELSE at[m][s]]]
        /\ shown' = [m \in MaxMarkets |-> [s \in 1..2 |-> IF Takes(l, m, s) /\ Readable(l, m) THEN l ELSE shown[m][s]]]
Spec == Init /\ [][Next]_<<l, at, shown>>

\* -- what a side shows: its valid orders in matching order, <<price lots, lots, owner>> ----
Long == "2000000000"    \* the drivers' orders expire long before or long after any run
OracleLots(i, m) == FxFloor(FxDiv(FxMul(Oracle(i, m).px, FxInt(Mkt(i, m).bl)), FxInt(Mkt(i, m).ql)))
Orders(i, m, s) ==
  LET es == Valid(Entries(s - 1, World(i).snaps[Sees(i, m).s[s].q], Long, IF Spot(i, m) THEN 1 ELSE OracleLots(i, m)))
  IN TLCEval([k \in DOMAIN es |-> <<es[k].px, es[k].o.q, es[k].o.o>>])
Prices(os) == {os[k][1] : k \in DOMAIN os}
RECURSIVE AtPrice(_, _, _)
AtPrice(os, px, k) == IF k > Len(os) THEN 0 ELSE (IF os[k][1] = px THEN os[k][2] ELSE 0) + AtPrice(os, px, k + 1)
Level(os, px) == AtPrice(os, px, 1)
SizesAt(os, px) == LET x == SelectSeq(os, LAMBDA o : o[1] = px) IN [k \in DOMAIN x |-> x[k][2]]
LevelSeq(os) == LET firsts == SelectSeq([k \in DOMAIN os |-> <<k, os[k][1]>>], LAMBDA x : x[1] = 1 \/ os[x[1] - 1][1] # x[2])
                IN [k \in DOMAIN firsts |-> <<firsts[k][2], Level(os, firsts[k][2])>>]
Times(os, o) == Cardinality({k \in DOMAIN os : os[k] = o})
Items(os) == {os[k] : k \in DOMAIN os}

\* -- units: a published float (times 2^48) shows that many lots ------------------------------
Near48(v, num, den) == Le(Abs(Sub(Mul(v, den), Shl(num, 48))), Add(Mul(2, den), Shr(Shl(Abs(num), 48), 40)))
PxNum(k) == Mul(k.ql, Pow(10, k.bd))
PxDen(k) == Mul(k.bl, Pow(10, k.qd))
RoundLots(v, num, den) == FDiv(Add(Mul(Mul(v, den), 2), Shl(num, 48)), Shl(num, 49))
PxLots(i, m, v) == RoundLots(v, PxNum(Mkt(i, m)), PxDen(Mkt(i, m)))
QtyLots(i, m, v) == RoundLots(v, Mkt(i, m).bl, Pow(10, Mkt(i, m).bd))
Exact(i, m, px, q) == /\ Near48(px, Mul(PxLots(i, m, px), PxNum(Mkt(i, m))), PxDen(Mkt(i, m)))
                      /\ Near48(q, Mul(QtyLots(i, m, q), Mkt(i, m).bl), Pow(10, Mkt(i, m).bd))
LevelsOf(i, m, x) == TLCEval([k \in DOMAIN x |-> <<PxLots(i, m, x[k].px), QtyLots(i, m, x[k].q)>>])
OrdersOf(i, m, x) == TLCEval([k \in DOMAIN x |-> <<PxLots(i, m, x[k].px), QtyLots(i, m, x[k].q), x[k].o>>])
InUnits(i, m, x) == \A k \in DOMAIN x : Exact(i, m, x[k].px, x[k].q)

SideName(s) == IF s = 1 THEN "bid" ELSE "ask"
Of(i, m, s, kind) == SelectSeq(Trace[i].out, LAMBDA o : o.m = m /\ o.y = kind /\ o.side = SideName(s))
Ver(i, m, s, o) == Eq(o.slot, Sees(i, m).s[s].slot) /\ Eq(o.v, Sees(i, m).s[s].v)

Published(i, m, s) ==
  LET old == Orders(shown[m][s], m, s)  new == Orders(i, m, s)
      px == Prices(old) \cup Prices(new)
      moved == {p \in px : Level(old, p) # Level(new, p)}
      \* sizes are sums of floats: orders in another sequence may give the level another last digit
      may == {p \in px : SizesAt(old, p) # SizesAt(new, p)}
      lvl == Of(i, m, s, "lvl")  book == Of(i, m, s, "book")
      items == Items(old) \cup Items(new)
      changed == {o \in items : Times(old, o) # Times(new, o)}
  IN
  /\ Rule(i, "C27 changed levels are published once, with their new size",
       IF lvl = <<>> THEN moved = {}
       ELSE Len(lvl) = 1 /\ LET u == LevelsOf(i, m, lvl[1].up)  told == {u[k][1] : k \in DOMAIN u} IN
            /\ Len(u) > 0 /\ Len(u) = Cardinality(told) /\ moved \subseteq told /\ told \subseteq may
            /\ \A k \in DOMAIN u : u[k][2] = Level(new, u[k][1]))
  /\ Rule(i, "C27 added and removed orders are published",
       IF changed = {} THEN book = <<>>
       ELSE Len(book) = 1 /\ LET a == OrdersOf(i, m, book[1].add)  r == OrdersOf(i, m, book[1].rem) IN
            /\ Items(a) \cup Items(r) = changed
            /\ \A o \in changed : Times(new, o) = Times(old, o) + Times(a, o) - Times(r, o)
            /\ Items(a) \cap Items(r) = {})
  /\ Rule(i, "C27 sizes and prices are in the market's units",
       (\A k \in DOMAIN lvl : InUnits(i, m, lvl[k].up)) /\ (\A k \in DOMAIN book : InUnits(i, m, book[k].add) /\ InUnits(i, m, book[k].rem)))
  /\ Rule(i, "C27 updates carry the side's version", (\A k \in DOMAIN lvl : Ver(i, m, s, lvl[k])) /\ \A k \in DOMAIN book : Ver(i, m, s, book[k]))

\* -- checkpoints: one pair for each published side once the other is known -------------------
Chk(i, m, kind) == SelectSeq(Trace[i].out, LAMBDA o : o.m = m /\ o.y = kind)
\* sides published at this line, bids first, the other side as known at that moment
Publishes(i, m, s) == Takes(i, m, s) /\ Readable(i, m) /\ shown[m][s] # 0
OtherAt(i, m, s) == IF s = 2 /\ Takes(i, m, 1) /\ Readable(i, m) THEN i ELSE shown[m][3 - s]
Due(i, m) == SelectSeq(<<1, 2>>, LAMBDA s : Publishes(i, m, s) /\ OtherAt(i, m, s) # 0)
Checkpoints(i, m) ==
  LET due == Due(i, m)  b == Chk(i, m, "bchk")  v == Chk(i, m, "lchk") IN
  /\ Rule(i, "C27 a checkpoint of both sides with each update", Len(b) = Len(due) /\ Len(v) = Len(due))
  /\ (Len(b) = Len(due) /\ Len(v) = Len(due)) => \A k \in DOMAIN due :
       LET s == due[k]  mine == Orders(i, m, s)  other == Orders(OtherAt(i, m, s), m, 3 - s)
           bids == IF s = 1 THEN mine ELSE other  asks == IF s = 1 THEN other ELSE mine IN
       /\ Rule(i, "C27 checkpoints show every order of both sides, best first",
            Same(OrdersOf(i, m, b[k].bids), bids) /\ Same(OrdersOf(i, m, b[k].asks), asks))
       /\ Rule(i, "C27 checkpoints show every level of both sides, best first",
            Same(LevelsOf(i, m, v[k].bids), LevelSeq(bids)) /\ Same(LevelsOf(i, m, v[k].asks), LevelSeq(asks)))
       /\ Rule(i, "C27 checkpoints carry the side's version and the market's units",
            /\ Ver(i, m, s, b[k]) /\ Ver(i, m, s, v[k])
            /\ InUnits(i, m, b[k].bids) /\ InUnits(i, m, b[k].asks) /\ InUnits(i, m, v[k].bids) /\ InUnits(i, m, v[k].asks))

C27_Inv == LET i == l IN
  IF Trace[i].y = "world" THEN TRUE ELSE
  /\ Rule(i, "C27 the feed keeps running", Trace[i].alive = 1)
  /\ Rule(i, "C27 messages name a known market", \A k \in DOMAIN Trace[i].out : Trace[i].out[k].m \in Markets(i))
  /\ \A m \in Markets(i) : /\ Checkpoints(i, m)
                           /\ \A s \in 1..2 : IF Publishes(i, m, s) THEN Published(i, m, s)
                                ELSE Rule(i, "C27 nothing is published without a newer side or oracle", Of(i, m, s, "lvl") = <<>> /\ Of(i, m, s, "book") = <<>>)
=============================================================================
