-------------------------------- MODULE Book --------------------------------
(* The order book of a perp market: valid orders, price-time ranking of fixed
   and oracle-pegged orders together, matching, posting and cancelling.  A side
   is [fix |-> [o |-> orders], peg |-> [o |-> orders]], best order first; an
   order's px is its price, or its offset from the oracle when pegged. *)
EXTENDS Fx, Sequences, FiniteSets, TLC

Bid == 0
Ask == 1
FixTree == 0
PegTree == 1
NoLimit == -1
MaxDrop == 5
SideCap == 1024            \* nodes of one side; n orders of a tree need 2n - 1
\* a is a strictly better price than b
Better(side, a, b) == IF side = Bid THEN Gt(a, b) ELSE Lt(a, b)
\* an order of `side` limited to price lim may trade at px
WithinLimit(side, px, lim) == IF side = Bid THEN Le(px, lim) ELSE Ge(px, lim)
Sat64(x) == Clamp(x, "-9223372036854775808", I64Max)
Expired(o, now) == Gt(o.tif, 0) /\ Ge(now, Add(o.ts, o.tif))
PegPrice(o, ora) == Sat64(Add(ora, o.px))
PegRepresentable(o, ora) == LET p == PegPrice(o, ora) IN Ge(p, 1) /\ Lt(p, I64Max)
BeyondPegLimit(side, o, ora) == Ne(o.pl, NoLimit) /\ Better(side, PegPrice(o, ora), o.pl)
Entry(side, o, tree, px, now, ora) ==
  [o |-> o, tree |-> tree, px |-> px,
   ok |-> ~Expired(o, now) /\ (tree = FixTree \/ ~BeyondPegLimit(side, o, ora))]
\* a's entry ranks before b's: price, then age
Ranks(side, a, b) == Better(side, a.px, b.px) \/ (Eq(a.px, b.px) /\ IF side = Bid THEN Gt(a.o.k, b.o.k) ELSE Lt(a.o.k, b.o.k))
RECURSIVE MergeR(_, _, _)
MergeR(side, x, y) ==
  IF x = <<>> THEN y ELSE IF y = <<>> THEN x
  ELSE IF Ranks(side, x[1], y[1]) THEN <<x[1]>> \o MergeR(side, Tail(x), y)
  ELSE <<y[1]>> \o MergeR(side, x, Tail(y))
\* every order an incoming order may meet, in matching order, including the invalid ones
Entries(side, bk, now, ora) ==
  TLCEval(MergeR(side,
    [k \in DOMAIN bk.fix.o |-> Entry(side, bk.fix.o[k], FixTree, bk.fix.o[k].px, now, ora)],
    LET pegs == SelectSeq(bk.peg.o, LAMBDA o : PegRepresentable(o, ora))
    IN [k \in DOMAIN pegs |-> Entry(side, pegs[k], PegTree, PegPrice(pegs[k], ora), now, ora)]))
Valid(es) == SelectSeq(es, LAMBDA e : e.ok)
BestPrice(side, bk, now, ora) == LET v == Valid(Entries(side, bk, now, ora)) IN IF v = <<>> THEN -1 ELSE v[1].px
\* price at which `qty` lots are available, or -1
RECURSIVE Walk(_, _, _)
Walk(es, k, qty) == IF k > Len(es) THEN -1
                    ELSE IF Ge(es[k].o.q, qty) THEN es[k].px ELSE Walk(es, k + 1, Sub(qty, es[k].o.q))
ImpactPrice(side, bk, qty, now, ora) == Walk(Valid(Entries(side, bk, now, ora)), 1, qty)

\* -- matching ------------------------------------------------------------------
(* ord: [side, base, quote, px (limit), postOnly, limit (matches), stb, a (owner)]
   result: base/quote left, decq = quote of self trades, evs, new quantities
   (newq: entry number -> quantity, 0 = removed), cont = may rest, abort.   *)
DecrementTake == 0
CancelProvide == 1
AbortTx == 2
RECURSIVE MatchR(_, _, _, _)
MatchR(ord, es, k, s) ==
  IF k > Len(es) \/ Eq(s.base, 0) \/ Eq(s.quote, 0) THEN s
  ELSE LET e == es[k]
           out == [y |-> "out", e |-> e, q |-> e.o.q]
           drop == [s EXCEPT !.evs = Append(@, out), !.newq = Append(@, [e |-> e, q |-> 0])]
       IN IF ~e.ok THEN MatchR(ord, es, k + 1, IF s.dropped < MaxDrop THEN [drop EXCEPT !.dropped = @ + 1] ELSE s)
          ELSE IF ~WithinLimit(ord.side, e.px, ord.px) THEN s
          ELSE IF ord.postOnly \/ s.limit = 0 THEN [s EXCEPT !.rest = FALSE]
          ELSE LET byQuote == FDiv(s.quote, e.px)
                   q == Min(Min(s.base, e.o.q), byQuote)
                   self == e.o.o = ord.a
                   fill == [y |-> "fill", e |-> e, q |-> q, mo |-> Eq(q, e.o.q), self |-> self]
               IN IF Eq(byQuote, 0) THEN s
                  ELSE IF self /\ ord.stb = CancelProvide THEN MatchR(ord, es, k + 1, drop)
                  ELSE IF self /\ ord.stb = AbortTx THEN [s EXCEPT !.abort = TRUE]
                  ELSE MatchR(ord, es, k + 1,
                         [s EXCEPT !.base = Sub(@, q), !.quote = Sub(@, Mul(q, e.px)),
                                   !.decq = IF self THEN Add(@, Mul(q, e.px)) ELSE @,
                                   !.evs = Append(@, fill), !.limit = @ - 1,
                                   !.newq = Append(@, [e |-> e, q |-> Sub(e.o.q, q)])])
Match(ord, es) ==
  MatchR(ord, es, 1, [base |-> ord.base, quote |-> ord.quote, decq |-> 0, evs |-> <<>>, newq |-> <<>>,
                      limit |-> ord.limit, dropped |-> 0, rest |-> TRUE, abort |-> FALSE])
\* a tree's orders after matching
AfterTree(os, tree, newq) ==
  LET hit(o) == {k \in DOMAIN newq : newq[k].e.tree = tree /\ Eq(newq[k].e.o.id, o.id)}
      left == SelectSeq(os, LAMBDA o : hit(o) = {} \/ \A k \in hit(o) : Ne(newq[k].q, 0))
  IN [k \in DOMAIN left |-> IF hit(left[k]) = {} THEN left[k]
                            ELSE [left[k] EXCEPT !.q = newq[CHOOSE h \in hit(left[k]) : TRUE].q]]
AfterMatch(bk, newq) == [fix |-> AfterTree(bk.fix.o, FixTree, newq), peg |-> AfterTree(bk.peg.o, PegTree, newq)]

\* -- resting -------------------------------------------------------------------
Without(os, id) == SelectSeq(os, LAMBDA o : Ne(o.id, id))
\* keys sort by price data, then by age
KeyBetter(side, a, b) == IF side = Bid THEN Gt(a.id, b.id) ELSE Lt(a.id, b.id)
Insert(side, os, o) == SelectSeq(os, LAMBDA x : KeyBetter(side, x, o)) \o <<o>> \o SelectSeq(os, LAMBDA x : ~KeyBetter(side, x, o))
OrderId(side, tree, px, seq) ==
  LET pd == IF tree = PegTree THEN Add(px, "9223372036854775808") ELSE px
      k == IF side = Bid THEN Sub(U64Max, seq) ELSE seq
  IN Add(Shl(pd, 64), k)
Expiry(o) == IF Eq(o.tif, 0) THEN U64Max ELSE Add(o.ts, o.tif)
\* the order with the earliest expiry (the smallest key among those)
Earliest(os) == CHOOSE k \in DOMAIN os : \A j \in DOMAIN os \ {k} :
  Lt(Expiry(os[k]), Expiry(os[j])) \/ (Eq(Expiry(os[k]), Expiry(os[j])) /\ Lt(os[k].id, os[j].id))
Evictable(os, now) == os # <<>> /\ Lt(Expiry(os[Earliest(os)]), now)
NodesOf(n) == IF n = 0 THEN 0 ELSE 2 * n - 1
\* full: at most one more node would fit (an insert may need two)
SideFull(fix, peg) == NodesOf(Len(fix)) + NodesOf(Len(peg)) >= SideCap - 1
=============================================================================
