---------------------------- MODULE BookSideGen ----------------------------
(* Every short history of one book side over a few keys chosen to share
   prefixes of every kind; checks the model itself and writes the histories
   for replay on the real order tree. *)
EXTENDS BookSide, SequencesExt, Json
CONSTANTS OutFile, Deep
\* keys: [tree, px, seq]
Keys == IF Deep THEN << <<0, 1, 1>>, <<0, 1, 2>>, <<0, 2, 3>>, <<0, 3, 1>>, <<0, 9, 4>>, <<1, -3, 5>>, <<1, 2, 6>> >>
        ELSE << <<0, 1, 1>>, <<0, 1, 2>>, <<0, 2, 3>>, <<0, 5, 4>>, <<1, -1, 5>> >>
N == Len(Keys)
Ts == 10
Ora == 3
Ins(k, tif) == [f |-> "ins", tree |-> Keys[k][1], px |-> Keys[k][2], seq |-> Keys[k][3], q |-> k, ts |-> Ts, tif |-> tif, pl |-> IF k = 6 THEN 0 ELSE -1]
Del(k) == [f |-> "del", tree |-> Keys[k][1], px |-> Keys[k][2], seq |-> Keys[k][3]]
Exp(t, now) == [f |-> "exp", tree |-> t, now |-> now]
Worst == [f |-> "worst", now |-> Ts + 1, ora |-> Ora]
Orders(n) == {p \in [1..n -> 1..N] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Tifs(n) == IF n <= 2 \/ Deep THEN [1..n -> {0, 1, 2}] ELSE IF n = 3 THEN {<<0, 1, 2>>, <<0, 2, 1>>, <<1, 2, 0>>, <<2, 1, 1>>, <<2, 2, 1>>}
           ELSE {<<0, 1, 2, 1>>, <<2, 1, 0, 2>>, <<2, 2, 1, 1>>}
Tails(p) ==
  LET n == Len(p) IN
  {<<>>, <<Worst>>, <<Worst, Worst>>} \cup {<<Exp(t, Ts + d)>> : t \in 0..1, d \in IF n <= 2 THEN 1..3 ELSE {3}}
  \cup {<<Del(k)>> : k \in IF n <= 2 THEN 1..N ELSE Range(p)}
  \cup IF n <= 3 THEN {<<Del(p[i]), Del(p[j])>> : i, j \in DOMAIN p} \cup {<<Del(p[i]), Ins(p[j], 1)>> : i, j \in DOMAIN p} \cup {<<Ins(p[i], 1)>> : i \in DOMAIN p}
       ELSE {}
MaxN == 4
Shapes == UNION {{<<p, t>> : p \in Orders(n), t \in Tifs(n)} : n \in 1..MaxN}
VARIABLE c
Init == c \in Shapes
Next == UNCHANGED c
Spec == Init /\ [][Next]_c
\* -- the model keeps its own promises ------------------------------------------
Order(side, o) == LET id == OrderId(side, o.tree, o.px, o.seq)
                  IN [id |-> id, k |-> ModPow2(id, 64), px |-> o.px, q |-> o.q, ts |-> o.ts, tif |-> o.tif, pl |-> o.pl]
Step(side, s, op) ==
  CASE op.f = "ins" -> DoInsert(side, s, op.tree, Order(side, op))
    [] op.f = "del" -> DoRemove(s, op.tree, OrderId(side, op.tree, op.px, op.seq))
    [] op.f = "exp" -> DoExpire(s, op.tree, op.now)
    [] op.f = "worst" -> DoWorst(side, s, op.ora)
RECURSIVE Run(_, _, _, _)
Run(side, s, ops, k) == IF k > Len(ops) THEN s ELSE Run(side, TLCEval(Step(side, s, ops[k]).s), ops, k + 1)
InsOps(x) == [k \in DOMAIN x[1] |-> Ins(x[1][k], x[2][k])]
Count(s) == Len(s.fix.o) + Len(s.peg.o)
\* what is left is what was put in less what was taken out, and is well formed; the worst is last in matching order
Sound == \A side \in {Bid, Ask} :
  LET s == Run(side, Empty, InsOps(c), 1)
      w == DoWorst(side, s, Ora)
      es == Entries(side, s, Ts, Ora)
      e == DoExpire(s, FixTree, Ts + 2)
  IN /\ WellFormed(side, s) /\ Count(s) = Len(c[1])
     /\ Count(w.s) = Count(s) - 1 /\ WellFormed(side, w.s)
     /\ (\A k \in DOMAIN s.peg.o : PegRepresentable(s.peg.o[k], Ora)) => Eq(es[Len(es)].o.id, w.out)
     /\ \A k \in 1..(Len(es) - 1) : Ranks(side, es[k], es[k + 1])
     /\ Eq(e.out, -1) <=> \A i \in DOMAIN c[2] : c[2][i] = 0 \/ Ts + c[2][i] >= Ts + 2
     /\ \A i \in DOMAIN c[1] : LET r == Run(side, s, <<Del(c[1][i])>>, 1) IN Count(r) = Count(s) - 1 /\ WellFormed(side, r)
TailsOf == [p \in UNION {Orders(n) : n \in 1..MaxN} |-> SetToSeq(Tails(p))]
Cases == LET tails == TLCEval(TailsOf)
             hs == TLCEval(SetToSeq(UNION {{<<x[1], x[2], k>> : k \in 1..Len(tails[x[1]])} : x \in Shapes}))
             H == Len(hs)
             h(j) == hs[(j + 1) \div 2]
         IN [j \in 1..(2 * H) |-> [side |-> j % 2, all |-> 0, ops |-> InsOps(h(j)) \o tails[h(j)[1]][h(j)[3]], now |-> Ts + 2, ora |-> Ora, lim |-> 3, qty |-> 4]]
ASSUME OutFile = "" \/ ndJsonSerialize(OutFile, Cases)
=============================================================================
