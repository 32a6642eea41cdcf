-------------------------------- MODULE C17 --------------------------------
(* The stable price of banks and perp markets. *)
EXTENDS Oracle, StablePrice
\* an operation that feeds the model with an oracle price, one that resets it
SpFeedsTok == {"update_index"}
SpFeedsPerp == {"perp_funding", "perp_place", "perp_peg"}
SpResetsTok == {"token_edit"}
SpResetsPerp == {"perp_edit"}
SpStep(i, what, a, b, now, price) ==
  /\ Rule(i, "C17 " \o what \o ": stable price update", SpSame(SpUpdate(a, now, price), b))
  /\ a.rs = 0 => Rule(i, "C17 " \o what \o ": bounded speed, towards the oracle", SpBounded(a, b, price))
SpIsReset(i, what, a, b, now, price) ==
  (~SpNum(a.p, b.p) \/ Ne(a.lu, b.lu) \/ a.rs # b.rs) =>
     Rule(i, "C17 " \o what \o ": resets to the oracle price", SpSame([SpReset(a, price, now) EXCEPT !.di = b.di, !.dg = b.dg, !.sg = b.sg, !.li = b.li], b))
C17_Line(i) ==
  LET L == Trace[i] op == L.op pre == L.pre post == L.post IN
  (L.ok = 1 /\ op.op \notin {"init", "batch", "via_proxy"}) =>
  /\ \A t \in Toks(pre) : \A b \in BothBanks(L, t) :
       LET x == Bank(pre, t, b).sp  y == Bank(post, t, b).sp  changed == pre.B[t + 1][b + 1] # post.B[t + 1][b + 1] IN
       IF op.op \in SpFeedsTok /\ op.t = t
         THEN IF PrimaryOk(pre, t) THEN SpStep(i, "bank", Bank0(pre, t).sp, y, pre.now, Ora(pre, t).px)
              ELSE Rule(i, "C17 bank: no update with a bad oracle", Same(x, y))
       ELSE IF op.op \in SpResetsTok /\ op.t = t
         THEN changed => SpIsReset(i, "bank", x, y, pre.now, Ora(pre, t).px)
       ELSE changed => Rule(i, "C17 bank: no other operation changes the stable price", Same(x, y))
  /\ \A p \in Perps(pre) \cap Perps(post) :
       LET x == Perp(pre, p).sp  y == Perp(post, p).sp  changed == pre.P[p + 1] # post.P[p + 1] IN
       IF op.op \in SpFeedsPerp /\ op.p = p /\ changed
         THEN Ne(Perp(pre, p).flu, Perp(post, p).flu) => SpStep(i, "perp", x, y, pre.now, POra(pre, p).px)
       ELSE IF op.op \in SpResetsPerp /\ op.p = p
         THEN changed => SpIsReset(i, "perp", x, y, pre.now, POra(pre, p).px)
       ELSE changed => Rule(i, "C17 perp: no other operation changes the stable price", Same(x, y))
=============================================================================
