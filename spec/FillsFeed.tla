------------------------------ MODULE FillsFeed ------------------------------
(* The fills feed: what a service watching perp event queues over forking slots
   owes its clients. Its state is, per market, the queue snapshot it saw last;
   a newer snapshot makes it publish the difference.                           *)
EXTENDS Fx, FillsModel, FiniteSets, Json, TLC
CONSTANTS TraceFile, Stride  \* Stride is unused: each history is followed line by line
Trace == ndJsonDeserialize(TraceFile)
VARIABLES l, at    \* the line, and per market the line whose snapshot was taken in last (0: none)
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)

World(i) == Trace[Trace[i].w0]
Markets(i) == 1..Len(World(i).markets)
Max4 == 1..4
Perp(i, m) == m \in Markets(i) /\ World(i).markets[m].spot = 0
\* what the chain shows of the market's queue at this line
Sees(i, m) == Trace[i].s[m]
Newer(x, y) == Gt(x.slot, y.slot) \/ (Eq(x.slot, y.slot) /\ Gt(x.v, y.v))
NoVersion == [slot |-> 0, v |-> 0]
Accepts(i, m) == /\ Trace[i].y = "step" /\ Perp(i, m) /\ Sees(i, m).on = 1
                 /\ Newer(Sees(i, m), IF at[m] = 0 THEN NoVersion ELSE Sees(at[m], m))
Init == l \in {i \in DOMAIN Trace : Trace[i].y = "world"} /\ at = [m \in Max4 |-> 0]
Next == /\ l < Len(Trace) /\ Trace[l + 1].y # "world" /\ l' = l + 1
        /\ at' = [m \in Max4 |-> IF Accepts(l, m) THEN l ELSE at[m]]
Spec == Init /\ [][Next]_<<l, at>>

\* a snapshot: events lo..seq-1 are still in the ring
Snap(i, m) == World(i).snaps[Sees(i, m).q]
Def(i, id) == World(i).defs[id]
FillId(i, id) == id # 0 /\ Def(i, id).y = "fill"
IsFill(i, q, s) == FillId(i, Id(q, s))
Capacity == 488

Pow10i(k) == IF k = 0 THEN 1 ELSE IF k = 1 THEN 10 ELSE IF k = 2 THEN 100 ELSE 1000
Near48(v, num, den) == Le(Abs(Sub(Mul(v, den), Shl(num, 48))), Add(Mul(2, den), Shr(Shl(Abs(num), 48), 40)))
\* what clients read about a fill is the event's content in the market's units
Shows(i, m, e, d) == LET k == World(i).markets[m] IN
  /\ e.y = "perp" /\ e.mk = d.mk /\ e.t = d.t /\ e.ts = (IF d.ts = 0 THEN "bid" ELSE "ask")
  /\ Eq(e.at, d.at) /\ Eq(e.seq, d.seq) /\ Eq(e.mc, d.mc) /\ Eq(e.tc, d.tc) /\ Eq(e.mf, d.mf) /\ Eq(e.tf, d.tf)
  /\ Near48(e.px, Mul(d.px, Mul(Pow10i(k.bd - k.qd), k.ql)), k.bl)
  /\ Near48(e.q, Mul(d.q, k.bl), Pow(10, k.bd))

Of(i, m, kind) == SelectSeq(Trace[i].out, LAMBDA o : o.m = m /\ o.y = kind)
Upd(i, m, st) == SelectSeq(Trace[i].out, LAMBDA o : o.m = m /\ o.y = "upd" /\ o.st = st)
Seqs(us) == [k \in DOMAIN us |-> us[k].e.seq]
Distinct(s) == Cardinality({s[k] : k \in DOMAIN s}) = Len(s)
First(i, m, st, s) == CHOOSE k \in DOMAIN Trace[i].out : LET o == Trace[i].out[k] IN o.m = m /\ o.y = "upd" /\ o.st = st /\ o.e.seq = s

Published(i, m) ==
  LET p == Snap(at[m], m)  c == Snap(i, m)
      news == Upd(i, m, "new")  revs == Upd(i, m, "revoke")  chk == Of(i, m, "chk")  head == Of(i, m, "head")
      Fl(id) == FillId(i, id)
      new == TLCEval(NewFills(p, c, Capacity, Fl))  gone == TLCEval(GoneFills(p, c, Capacity, Fl))
      pos == TLCEval({s \in Both(p, c, Capacity) : IsFill(i, c, s)})
  IN
  /\ Rule(i, "C26 exactly the new fills are published, once each",
       Distinct(Seqs(news)) /\ {news[k].e.seq : k \in DOMAIN news} = new)
  /\ Rule(i, "C26 exactly the fills a fork undid are revoked, once each",
       Distinct(Seqs(revs)) /\ {revs[k].e.seq : k \in DOMAIN revs} = gone)
  /\ Rule(i, "C26 published fills show the event", \A k \in DOMAIN news : news[k].e.seq \in new => Shows(i, m, news[k].e, Def(i, Id(c, news[k].e.seq))))
  /\ Rule(i, "C26 revoked fills show the undone event", \A k \in DOMAIN revs : revs[k].e.seq \in gone => Shows(i, m, revs[k].e, Def(i, Id(p, revs[k].e.seq))))
  /\ Rule(i, "C26 a fill is revoked before its replacement is published",
       \A s \in new \cap gone : First(i, m, "revoke", s) < First(i, m, "new", s))
  /\ Rule(i, "C26 fills are published in order", \A j \in 1..(Len(news) - 1) : news[j].e.seq < news[j + 1].e.seq)
  /\ Rule(i, "C26 one checkpoint with the queue's fills",
       /\ Len(chk) = 1 /\ chk[1].qm = m
       /\ LET ev == chk[1].ev IN
          /\ \A j \in DOMAIN ev : IsFill(i, c, ev[j].seq) /\ Shows(i, m, ev[j], Def(i, Id(c, ev[j].seq)))
          /\ \A j \in 1..(Len(ev) - 1) : ev[j].seq < ev[j + 1].seq
          /\ pos \subseteq {ev[j].seq : j \in DOMAIN ev})
  /\ Rule(i, "C26 consumption is announced",
       IF c.h = p.h THEN Len(head) = 0
       ELSE /\ Len(head) = 1 /\ head[1].st = "new" /\ head[1].h = c.h /\ head[1].ph = p.h
            /\ head[1].hs = c.seq - c.n /\ head[1].phs = p.seq - p.n)
  /\ Rule(i, "C26 messages carry the snapshot's version and the market's name",
       \A k \in DOMAIN Trace[i].out : LET o == Trace[i].out[k] IN
         o.m = m => Eq(o.slot, Sees(i, m).slot) /\ Eq(o.v, Sees(i, m).v) /\ (o.y # "chk" => o.name = World(i).markets[m].name))

C26_Inv == LET i == l IN
  IF Trace[i].y = "world" THEN TRUE ELSE
  /\ Rule(i, "C26 the feed keeps running", Trace[i].alive = 1)
  /\ Rule(i, "C26 messages name a known market", \A k \in DOMAIN Trace[i].out : Perp(i, Trace[i].out[k].m))
  /\ \A m \in Markets(i) :
       IF Accepts(i, m) /\ at[m] # 0 THEN Published(i, m)
       ELSE Rule(i, "C26 nothing is published without a newer snapshot", \A k \in DOMAIN Trace[i].out : Trace[i].out[k].m # m)
=============================================================================
