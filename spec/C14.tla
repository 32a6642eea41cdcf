-------------------------------- MODULE C14 --------------------------------
(* Account slots: nothing in use is lost; resizing keeps contents. *)
EXTENDS Fees
TokUsed(A, k) == A.tp[k].i # -1
ActToks(A) == SelectSeq(A.tp, LAMBDA x : x.i # -1)
ActPerps(A) == SelectSeq(A.pp, LAMBDA x : x.m # -1)
ActSpots(A) == SelectSeq(A.s3, LAMBDA x : x.m # -1)
ActSwaps(A) == SelectSeq(A.cs, LAMBDA x : x.on # 0)
ActOrders(A) == SelectSeq(A.oo, LAMBDA x : x.m # -1)
Distinct(s) == \A j, k \in DOMAIN s : j = k \/ s[j] # s[k]
IdsOf(s, f) == [k \in DOMAIN s |-> s[k][f]]
Empty == << >>
\* how many things of the account hold token t's position open
Holds(s, A, t) ==
    Cardinality({k \in DOMAIN A.pp : A.pp[k].m # -1 /\ Perp(s, A.pp[k].m).st = t})
  + Cardinality({k \in DOMAIN A.s3 : A.s3[k].m # -1 /\ A.s3[k].bi = t})
  + Cardinality({k \in DOMAIN A.s3 : A.s3[k].m # -1 /\ A.s3[k].qi = t})
  + Cardinality({k \in DOMAIN A.cs : A.cs[k].on # 0 /\ A.cs[k].bi = t})
  + Cardinality({k \in DOMAIN A.cs : A.cs[k].on # 0 /\ A.cs[k].si = t})
Slots(i, s, A) ==
  /\ Rule(i, "C14 one slot per token and market",
       Distinct(IdsOf(ActToks(A), "i")) /\ Distinct(IdsOf(ActPerps(A), "m")) /\ Distinct(IdsOf(ActSpots(A), "m")))
  /\ Rule(i, "C14 free token slots hold nothing", \A k \in DOMAIN A.tp : A.tp[k].i = -1 => Eq(A.tp[k].x, 0) /\ A.tp[k].u = 0)
  /\ Rule(i, "C14 use counts equal the markets and swaps relying on the token",
       \A k \in DOMAIN A.tp : A.tp[k].i # -1 => A.tp[k].u = Holds(s, A, A.tp[k].i))
  /\ Rule(i, "C14 what relies on a token has its slot",
       /\ \A k \in DOMAIN A.pp : A.pp[k].m # -1 => HasTok(A, Perp(s, A.pp[k].m).st)
       /\ \A k \in DOMAIN A.s3 : A.s3[k].m # -1 => HasTok(A, A.s3[k].bi) /\ HasTok(A, A.s3[k].qi)
       /\ \A k \in DOMAIN A.cs : A.cs[k].on # 0 => HasTok(A, A.cs[k].bi) /\ HasTok(A, A.cs[k].si))
  /\ Rule(i, "C14 every order slot has its market position", \A k \in DOMAIN A.oo : A.oo[k].m # -1 => HasPerp(A, A.oo[k].m))
\* the record of account a under number num in s
SizeOf(A) == <<Len(A.tp), Len(A.s3), Len(A.pp), Len(A.oo), Len(A.cs)>>
Space(z) == 520 + 184 * z[1] + 120 * z[2] + 304 * z[3] + 96 * z[4] + 200 * z[5]
HealthAccs(z) == 2 * z[1] + z[2] + 2 * z[3]
NoneActive(A) == ActToks(A) = Empty /\ ActPerps(A) = Empty /\ ActSpots(A) = Empty /\ ActOrders(A) = Empty /\ ActSwaps(A) = Empty
Within3(new, old) ==
  /\ (HealthAccs(new) <= HealthAccs(old) \/ HealthAccs(new) <= 28)
  /\ (new[4] <= old[4] \/ new[4] <= 64) /\ (new[5] <= old[5] \/ new[5] <= 64)
LastOrder(A) == LET S == {k \in DOMAIN A.oo : A.oo[k].m # -1} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : \A j \in S : j <= k
Fits(A, z) == Len(ActToks(A)) <= z[1] /\ Len(ActSpots(A)) <= z[2] /\ Len(ActPerps(A)) <= z[3] /\ LastOrder(A) <= z[4] /\ Len(ActSwaps(A)) <= z[5]
\* B's list holds, up to order, exactly A's active entries
Kept(sa, sb, f) ==
  /\ Len(sa) = Len(sb)
  /\ \A k \in DOMAIN sa : \E j \in DOMAIN sb : sb[j][f] = sa[k][f] /\ Same(sb[j], sa[k])
C14_Resize(i, A, B, z) ==
  /\ Rule(i, "C14 resizing gives the requested slots", SizeOf(B) = z /\ B.len = Space(z))
  /\ Rule(i, "C14 resizing keeps positions and orders",
       /\ Kept(ActToks(A), ActToks(B), "i") /\ Kept(ActPerps(A), ActPerps(B), "m") /\ Kept(ActSpots(A), ActSpots(B), "m")
       /\ Kept(ActSwaps(A), ActSwaps(B), "id")
       \* orders on the book know their slot
       /\ Len(ActOrders(A)) = Len(ActOrders(B))
       /\ \A k \in DOMAIN A.oo : A.oo[k].m # -1 => k <= Len(B.oo) /\ Same(A.oo[k], B.oo[k]))
  /\ Rule(i, "C14 resizing keeps every setting", Changed(A, B) \subseteq {"tp", "s3", "pp", "oo", "cs", "len"})
MigrateSize(A) ==
  LET z == SizeOf(A)  mx(a, b) == IF a > b THEN a ELSE b  mn(a, b) == IF a < b THEN a ELSE b
  IN <<mn(z[1], mx(8, Len(ActToks(A)))), mn(z[2], mx(4, Len(ActSpots(A)))), mn(z[3], mx(4, Len(ActPerps(A)))), z[4], z[5]>>
\* a slot may be given up only when it is empty
PerpEmpty(P) == Eq(P.b, 0) /\ Eq(P.q, 0) /\ Eq(P.bb, 0) /\ Eq(P.ab, 0) /\ Eq(P.tb, 0) /\ Eq(P.tq, 0)
C14_Freed(i, L, a) ==
  LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
  /\ Rule(i, "C14 a perp slot is given up only when empty",
       \A k \in DOMAIN A.pp : (A.pp[k].m # -1 /\ ~HasPerp(B, A.pp[k].m)) => (L.op.op = "perp_deactivate" /\ L.op.p = A.pp[k].m
          /\ LET P == A.pp[k] IN PerpEmpty([P EXCEPT !.q = Sub(P.q, UnsettledFunding(P, Perp(L.pre, P.m)))])))
  /\ Rule(i, "C14 a spot slot is given up only with its empty open orders",
       \A k \in DOMAIN A.s3 : (A.s3[k].m # -1 /\ ~HasSpot(B, A.s3[k].m)) => (L.op.op = "s3_close" /\ L.op.s = A.s3[k].m
          /\ LET o == OO(L.pre, a, L.op.s) IN Eq(o.bt, 0) /\ Eq(o.qt, 0) /\ o.os = << >>))
  /\ Rule(i, "C14 an order slot is given up only with its order", (L.op.op \in {"account_expand", "account_migrate"}) =>
          Len(ActOrders(A)) = Len(ActOrders(B)))
\* when the last thing relying on a token goes, a position of less than one unit goes with it
C14_Dusted(i, L, a) ==
  LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
  \A k \in DOMAIN A.tp : (A.tp[k].i # -1 /\ A.tp[k].u > 0 /\ HasTok(B, A.tp[k].i) /\ TPos(B, A.tp[k].i).u = 0) =>
    LET t == A.tp[k].i  x == TIdx(B, t) IN
    Rule(i, "C14 no slot is left to dust nothing relies on",
      IsNeg(x) \/ \E b \in BothBanks(L, t) : Ge(Native(x, Bank(L.post, t, b)), One))
\* positions stay where they are
C14_Stay(i, L, a) ==
  LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
  Rule(i, "C14 a position keeps its slot",
    /\ SizeOf(A) = SizeOf(B) /\ A.len = B.len
    /\ \A k \in DOMAIN A.tp : (A.tp[k].i # -1 /\ HasTok(B, A.tp[k].i)) => B.tp[k].i = A.tp[k].i
    /\ \A k \in DOMAIN A.pp : (A.pp[k].m # -1 /\ HasPerp(B, A.pp[k].m)) => B.pp[k].m = A.pp[k].m
    /\ \A k \in DOMAIN A.s3 : (A.s3[k].m # -1 /\ HasSpot(B, A.s3[k].m)) => B.s3[k].m = A.s3[k].m
    /\ \A k \in DOMAIN A.cs : (A.cs[k].on # 0 /\ B.cs[k].on # 0) => Eq(B.cs[k].id, A.cs[k].id))
\* a freshly opened position starts from nothing
C14_Opened(i, L, a) ==
  LET A == Acc(L.pre, a)  B == Acc(L.post, a) IN
  /\ \A k \in DOMAIN B.s3 : (B.s3[k].m # -1 /\ ~HasSpot(A, B.s3[k].m)) =>
       Rule(i, "C14 a new spot slot starts empty", LET S == B.s3[k] IN
         /\ L.op.op = "s3_create" /\ L.op.s = S.m /\ S.oo = S.m
         /\ \A f \in {"bb", "qb", "hb", "la", "pb", "pq", "lb", "ha"} : Eq(S[f], 0)
         /\ S.bi = Spot(L.pre, S.m).bi /\ S.qi = Spot(L.pre, S.m).qi)
  /\ \A k \in DOMAIN B.pp : (B.pp[k].m # -1 /\ ~HasPerp(A, B.pp[k].m)) =>
       Rule(i, "C14 a new perp slot carries no history",
         LET P == B.pp[k] IN Eq(P.mv, 0) /\ (L.op.op \in {"perp_place", "perp_peg"} => Eq(P.b, 0) /\ Eq(P.ps, 0)))
\* the accounts an operation may open positions in
Parties(op) == {op[f] : f \in ({"a", "l", "b", "s", "dao"} \cap DOMAIN op)}
FullToks(A) == \A k \in DOMAIN A.tp : A.tp[k].i # -1
C14_Fail(i, L) ==
  LET op == L.op  s == L.pre  ps == Parties(op) \cap Accs(s) IN
  /\ (L.code = 6011) => Rule(i, "C14 out of token slots only when all are taken",
        \E a \in ps : \/ FullToks(Acc(s, a))
                      \* two positions to open, one slot left
                      \/ op.op \in {"tcs_create", "liq_token", "tcs_trigger", "force_close_borrows", "s3_create", "flash_end", "liq_bankruptcy"} /\ Cardinality({k \in DOMAIN Acc(s, a).tp : Acc(s, a).tp[k].i = -1}) < 2
                      \/ op.op = "flash_end")
  /\ (L.code = 6012) => Rule(i, "C14 out of spot slots only when all are taken", \A k \in DOMAIN Acc(s, op.a).s3 : Acc(s, op.a).s3[k].m # -1)
  /\ (L.code = 6013) => Rule(i, "C14 out of perp slots only when all are taken", \E a \in ps : \A k \in DOMAIN Acc(s, a).pp : Acc(s, a).pp[k].m # -1)
  /\ (L.code = 6014) => Rule(i, "C14 open orders exist already only when they do", HasSpot(Acc(s, op.a), op.s))
C14_Line(i) ==
  LET L == Trace[i]  op == L.op  n == op.op  pre == L.pre  post == L.post IN
  /\ \A a \in Accs(post) : (pre.A[a + 1] # post.A[a + 1] \/ n = "init") => Slots(i, post, Acc(post, a))
  /\ (L.ok = 1 /\ n \notin {"init", "batch", "via_proxy", "account_create", "account_close", "legacy_pad"} /\ pre.A # post.A) =>
       \A a \in Accs(pre) : (pre.A[a + 1] # post.A[a + 1]) =>
         /\ Rule(i, "C14 accounts disappear only when closed", Live(post, a))
         /\ Live(post, a) => /\ C14_Freed(i, L, a)
                             /\ (n \in {"tcs_cancel", "tcs_trigger"} /\ a = op.a) => C14_Dusted(i, L, a)
                             /\ (n \in {"account_expand", "account_migrate"} \/ C14_Stay(i, L, a))
                             /\ (n \in {"account_expand", "account_migrate"} \/ C14_Opened(i, L, a))
  /\ (L.ok = 1 /\ n = "account_expand") =>
       LET A == Acc(pre, op.a)  z == <<op.tc, op.sc, op.pc, op.oc, op.cc>> IN
       /\ C14_Resize(i, A, Acc(post, op.a), z)
       /\ Rule(i, "C14 an account stays within its limits", Within3(z, SizeOf(A)))
  /\ (L.ok = 1 /\ n = "account_migrate") =>
       LET A == Acc(pre, op.a)  z == IF A.len = Space(SizeOf(A)) THEN SizeOf(A) ELSE MigrateSize(A) IN
       /\ C14_Resize(i, A, Acc(post, op.a), z)
       /\ A.len = Space(SizeOf(A)) => Rule(i, "C14 migrating twice changes nothing", Same(A, Acc(post, op.a)))
  /\ (L.ok = 1 /\ n \in {"account_expand", "account_migrate", "account_create", "account_close"}) =>
       Rule(i, "C14 an account's size and life concern no other",
         /\ \A a \in AllAccs(pre) : a = op.a \/ pre.A[a + 1] = post.A[a + 1]
         /\ pre.B = post.B /\ pre.P = post.P /\ pre.OO = post.OO /\ pre.BD = post.BD /\ pre.AK = post.AK)
  /\ (L.ok = 1 /\ n = "account_create") =>
       LET B == Acc(post, op.a)  z == <<op.tc, op.sc, op.pc, op.oc, op.cc>> IN
       /\ Rule(i, "C14 a new account takes a free address", pre.A[op.a + 1] # post.A[op.a + 1] /\ ~Live(pre, op.a))
       /\ Rule(i, "C14 a new account has the requested empty slots", SizeOf(B) = z /\ NoneActive(B) /\ B.len = Space(z) /\ Within3(z, <<0, 0, 0, 0, 0>>))
       /\ Rule(i, "C14 a new account starts clean",
            /\ B.bl = 0 /\ B.hr = 0 /\ B.sq = 0 /\ Eq(B.nd, 0) /\ Eq(B.pst, 0) /\ Eq(B.hrh, 0) /\ Eq(B.fu, 0) /\ Eq(B.bc, 0) /\ Eq(B.bp, 0)
            /\ Eq(B.nid, 0) /\ B.del \in {"none", ""} /\ Eq(B.tdx, 0))
  /\ (L.ok = 1 /\ n = "account_close") =>
       /\ Rule(i, "C14 a closed account is gone", Live(pre, op.a) /\ ~Live(post, op.a))
       /\ (G(op, "force", 0) = 0) => Rule(i, "C14 an account is closed only when empty", NoneActive(Acc(pre, op.a)) /\ Acc(pre, op.a).bl = 0)
       /\ (G(op, "force", 0) # 0) => Rule(i, "C14 closing by force only in test groups", Grp(pre).test = 1)
  \* a resize within limits that fits the contents is not refused
  /\ (L.ok = 0 /\ n = "account_expand" /\ L.code \notin {2001, 2003, 6042, 6038, 6000} /\ Live(pre, op.a) /\ "by" \notin DOMAIN op /\ "subst" \notin DOMAIN op) =>
       LET A == Acc(pre, op.a)  z == <<op.tc, op.sc, op.pc, op.oc, op.cc>> IN
       Rule(i, "C14 a resize that fits is carried out", ~(Within3(z, SizeOf(A)) /\ Fits(A, z)))
  /\ (L.ok = 0 /\ n # "batch") => C14_Fail(i, L)
=============================================================================
