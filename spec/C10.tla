-------------------------------- MODULE C10 --------------------------------
(* The stored books of recorded executions: sorted, complete, no storage lost,
   and evictions from a full side. *)
EXTENDS Perp
LOCAL BS == INSTANCE BookSide
SideAt(s, sd, p) == IF sd = Bid THEN Bids(s, p) ELSE Asks(s, p)
C10SideOk(i, s, sd, p) ==
  LET b == SideAt(s, sd, p) IN
  b.live = 1 =>
    /\ Rule(i, "C10 strictly sorted by price, then age", BS!WellFormed(sd, b))
    /\ Rule(i, "C10 no storage is lost", b.bump - b.free = BS!UsedNodes(b))
\* a full side gives up an order only to a strictly better one, or an expired one
C10Evict(i) ==
  LET op == Trace[i].op  p == op.p  sd == op.side
      b == SideAt(Trace[i].pre, sd, p)  x == SideAt(Trace[i].post, sd, p)
      now == Trace[i].pre.now
      ids(s) == {s.fix.o[k].id : k \in DOMAIN s.fix.o} \cup {s.peg.o[k].id : k \in DOMAIN s.peg.o}
      gone == ids(b) \ ids(x)
      new == ids(x) \ ids(b)
      All(s) == s.fix.o \o s.peg.o
      At(s, id) == LET m == SelectSeq(All(s), LAMBDA o : o.id = id) IN m[1]
      ora == PriceLots(Perp(Trace[i].pre, p), POra(Trace[i].pre, p).px)
      Px(s, o) == IF o.id \in {s.peg.o[k].id : k \in DOMAIN s.peg.o} THEN Max(PegPrice(o, ora), 1) ELSE o.px
      wasFull == BS!UsedNodes(b) >= SideCap - 2
  IN /\ Rule(i, "C10 placing adds at most one order to the side and drops at most one", Cardinality(new) <= 1 /\ Cardinality(gone) <= 1)
     /\ new = {} => Rule(i, "C10 nothing is dropped without an order to place", gone = {})
     /\ (gone # {} /\ new # {}) =>
          LET g == At(b, CHOOSE id \in gone : TRUE)  n == At(x, CHOOSE id \in new : TRUE)
          IN Rule(i, "C10 an order is evicted when expired, or by a strictly better one from a full side",
               Expired(g, now) \/ (wasFull /\ Better(sd, Px(x, n), Px(b, g))))
C10_Line(i) ==
  LET t == Trace[i]  op == t.op IN
  /\ \A p \in Perps(t.post) : (op.op = "init" \/ t.pre.BD[p + 1] # t.post.BD[p + 1] \/ t.pre.AK[p + 1] # t.post.AK[p + 1]) =>
        C10SideOk(i, t.post, Bid, p) /\ C10SideOk(i, t.post, Ask, p)
  /\ (t.ok = 1 /\ op.op \in {"perp_place", "perp_peg"}) => C10Evict(i)
=============================================================================
