-------------------------------- MODULE C08 --------------------------------
(* Flash loans: repaid and accounted within their transaction. *)
EXTENDS Fees
Begins == {"flash_begin", "flash_swap_begin"}
\* instructions of other programs, which may stand between the loan and its settlement
Foreign == {"spl_transfer", "compute_budget"}
LoanToks(op) == [k \in DOMAIN op.loans |-> op.loans[k].t]
Settles(b, e) == /\ e.op = "flash_end" /\ G(e, "v1", 0) = 0 /\ e.a = b.a /\ LoanToks(e) = LoanToks(b)
                 /\ G(e, "wallet", e.a) = G(b, "wallet", b.a)
\* the instructions of a transaction, in order, seen from the outside
Matched(ops, j) == \E k \in (j + 1)..Len(ops) :
  /\ Settles(ops[j], ops[k])
  /\ \A x \in (j + 1)..(k - 1) : ops[x].op \in Foreign
Inside(o) == IF o.op = "via_proxy" THEN {o.inner.op} ELSE {}
C08_Begin(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  who == G(op, "wallet", op.a)
      ts == LoanToks(op) IN
  /\ Rule(i, "C08 one loan per token", \A j, k \in DOMAIN ts : j = k \/ ts[j] # ts[k])
  /\ \A k \in DOMAIN ts : LET t == ts[k]  b == Bank0(pre, t)  c == Bank0(post, t)
                             n == IF op.op = "flash_swap_begin" /\ k = 2 THEN 0 ELSE op.loans[k].loan IN
       /\ Rule(i, "C08 a loan starts with none outstanding", Eq(b.fla, 0) /\ Eq(b.fli, U64Max))
       /\ Rule(i, "C08 the loan leaves the vault and is recorded",
            /\ Eq(c.v, Sub(b.v, n)) /\ Eq(c.fla, n) /\ Eq(c.fli, Wal(pre, who)[t + 1])
            /\ Eq(Wal(post, who)[t + 1], Add(Wal(pre, who)[t + 1], n))
            /\ Changed(b, c) \subseteq {"v", "fla", "fli"})
  /\ Rule(i, "C08 lending changes no balance", pre.A = post.A)
C08_End(i, L) ==
  LET op == L.op  pre == L.pre  post == L.post  A2 == Acc(post, op.a)
      T == {op.loans[k].t : k \in DOMAIN op.loans} IN
  /\ Rule(i, "C08 settled directly", L.sub = 1)
  /\ \A t \in T : LET X == FlashBook(L, t)  c == Bank0(post, t) IN
       /\ Rule(i, "C08 only what was lent is settled", Ne(Bank0(pre, t).fli, U64Max))
       /\ Rule(i, "C08 the difference is booked, with the loan and swap fees", Eq(TIdx(A2, t), X.x) /\ LedgerEq(c, X.bk))
       /\ Rule(i, "C08 what was returned goes to the vault",
            Eq(c.v, Add(Bank0(pre, t).v, X.back)) /\ Eq(Wal(post, X.who)[t + 1], Sub(Wal(pre, X.who)[t + 1], X.back)))
       /\ Rule(i, "C08 settling clears the loan", Eq(c.fla, 0) /\ Eq(c.fli, U64Max))
  /\ Rule(i, "C08 a swap has two sides", G(op, "type", 0) = 0 \/ Cardinality(T) = 2)
  /\ Rule(i, "C08 other banks and accounts are untouched",
       /\ \A t \in Toks(pre) \ T : pre.B[t + 1] = post.B[t + 1]
       /\ \A t \in T : \A b \in 1..NBank(pre, t) : b = 1 \/ pre.B[t + 1][b] = post.B[t + 1][b]
       /\ \A a \in AllAccs(pre) : a = op.a \/ pre.A[a + 1] = post.A[a + 1])
  /\ Rule(i, "C08 other positions are untouched",
       LET A == Acc(pre, op.a) IN
       /\ \A t \in Toks(pre) \ T : Eq(TIdx(A, t), TIdx(A2, t))
       /\ Same(A.pp, A2.pp) /\ Same(A.oo, A2.oo) /\ Same(A.s3, A2.s3) /\ Same(A.cs, A2.cs))
  /\ (G(op, "v1", 0) = 0) => Rule(i, "C08 the account ends healthy or no worse off",
       LET h0 == HealthX(pre, op.a, "i", TRUE, NoAdj)  h1 == HealthX(post, op.a, "i", TRUE, NoAdj) IN
       PostOk(h0[1], h1[1], Add(HTol(h0[2]), HTol(h1[2]))))
Outstanding(s) == \E t \in Toks(s) : \E b \in 1..NBank(s, t) :
  LET k == Bank(s, t, b - 1) IN k.live = 1 /\ (Ne(k.fla, 0) \/ Ne(k.fli, U64Max))
C08_Line(i) ==
  LET L == Trace[i]  op == L.op IN
  /\ (L.ok = 1 /\ op.op \in Begins) => C08_Begin(i, L)
  /\ (L.ok = 1 /\ op.op = "flash_end") => C08_End(i, L)
  /\ (L.ok = 1 /\ op.op \in Begins) => Rule(i, "C08 a loan is not the last of its transaction", L.sub = 1)
  /\ (L.ok = 1 /\ op.op = "batch" /\ \E k \in DOMAIN op.ops : op.ops[k].op \in Begins) =>
       Rule(i, "C08 a loan has its settlement, with nothing of the program in between",
            \A k \in DOMAIN op.ops : op.ops[k].op \in Begins => Matched(op.ops, k))
  /\ (L.ok = 1 /\ op.op = "batch") => \A k \in DOMAIN op.ops :
       /\ op.ops[k].op = "via_proxy" => Rule(i, "C08 no loan through another program", Inside(op.ops[k]) \cap (Begins \cup {"flash_end"}) = {})
       /\ op.ops[k].op = "flash_end" => Rule(i, "C08 nothing is settled that was not lent", \E j \in 1..(k - 1) : op.ops[j].op \in Begins)
  /\ (L.ok = 1 /\ op.op = "via_proxy") => Rule(i, "C08 no loan through another program", Inside(op) \cap (Begins \cup {"flash_end"}) = {})
  /\ (L.ok = 1 /\ L.sub = 0 /\ L.pre.B # L.post.B) => Rule(i, "C08 no loan outlives its transaction", ~Outstanding(L.post))
  /\ (L.ok = 1 /\ op.op \notin Begins \cup {"flash_end", "batch", "via_proxy", "init"} /\ L.pre.B # L.post.B) =>
       \A t \in Toks(L.pre) : \A b \in BothBanks(L, t) : L.pre.B[t + 1][b + 1] # L.post.B[t + 1][b + 1] =>
         Rule(i, "C08 nothing else touches loans", Changed(Bank(L.pre, t, b), Bank(L.post, t, b)) \cap {"fla", "fli"} = {})
=============================================================================
