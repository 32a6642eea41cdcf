----------------------------- MODULE MarginTrade -----------------------------
(* The margin-trade example program as a transition on token accounts.
   Accounts: sequence of [k (0 token account, 1 not initialised, 2 another
   program's, 3 missing), o owner key, m mint, n amount, fz frozen, dl delegate
   key or -1, dn delegated amount].  A call names the account it pays from (w),
   its own account (d), their authorities, who signs and the bump. *)
EXTENDS Naturals, Integers, Sequences, BigInt
MaxU64 == Sub(Pow2(64), 1)
Signed(c, k) == (k = c.wo /\ c.ws = 1) \/ (k = c["do"] /\ c.ds = 1) \/ (c.extra = 1 /\ k \in 0..1 /\ k # c.wo /\ k # c["do"])
\* a token transfer of n from account x to account y, approved by key k (holds = the key approves)
Fail == [ok |-> FALSE, s |-> <<>>]
Transfer(s, x, y, k, holds, n) ==
  LET a == s[x + 1]  b == s[y + 1]
      viaDelegate == a.dl = k
      ok == /\ a.k = 0 /\ b.k = 0 /\ a.fz = 0 /\ b.fz = 0
            /\ Ge(a.n, n) /\ a.m = b.m /\ holds
            /\ (IF viaDelegate THEN Ge(a.dn, n) ELSE a.o = k)
            /\ (x = y \/ Le(Add(b.n, n), MaxU64))
      dn2 == IF viaDelegate THEN Sub(a.dn, n) ELSE a.dn
      a2 == [a EXCEPT !.n = Sub(a.n, n), !.dn = dn2, !.dl = IF viaDelegate /\ Eq(dn2, 0) THEN -1 ELSE a.dl]
  IN IF ~ok THEN Fail
     ELSE IF x = y THEN [ok |-> TRUE, s |-> s]
     ELSE IF viaDelegate /\ Eq(n, 0)
       THEN [ok |-> TRUE, s |-> [s EXCEPT ![x + 1] = [a EXCEPT !.dl = IF Eq(a.dn, 0) THEN -1 ELSE a.dl]]]
     ELSE [ok |-> TRUE, s |-> [s EXCEPT ![x + 1] = a2, ![y + 1] = [b EXCEPT !.n = Add(b.n, n)]]]
Writable(c, i) == (i = c.w /\ c.ww = 1) \/ (i = c.d /\ c.dw = 1)
\* the program's effect: pay `from` in when it is not zero, then pay `to` back out, or nothing at all
Outcome(s, c) ==
  LET pre == /\ s[c.w + 1].k = 0 /\ s[c.d + 1].k = 0 /\ Writable(c, c.w) /\ Writable(c, c.d) /\ c.tp = 0
      t1 == IF Eq(c.from, 0) THEN [ok |-> TRUE, s |-> s]
            ELSE Transfer(s, c.w, c.d, c.wo, Signed(c, c.wo), c.from)
      t2 == Transfer(t1.s, c.d, c.w, c["do"], c["do"] = c.bump \/ Signed(c, c["do"]), c.to)
  IN IF ~pre THEN Fail ELSE IF ~t1.ok THEN Fail ELSE IF c.bump = -1 THEN Fail ELSE t2
\* what the property promises of a successful call, whatever the rules above say
Amt(s, i) == s[i + 1].n
Promised(s, c, t) ==
  /\ \A i \in DOMAIN s : (i - 1 \notin {c.w, c.d}) => t[i] = s[i]
  /\ (c.w # c.d) => /\ Eq(Amt(t, c.w), Add(Sub(Amt(s, c.w), c.from), c.to))
                    /\ Eq(Amt(t, c.d), Sub(Add(Amt(s, c.d), c.from), c.to))
  /\ (c.w = c.d) => Eq(Amt(t, c.w), Amt(s, c.w))
  /\ \A i \in DOMAIN s : t[i].o = s[i].o /\ t[i].m = s[i].m /\ t[i].k = s[i].k /\ t[i].fz = s[i].fz
  /\ (c["do"] = c.bump \/ Signed(c, c["do"]))
  /\ Gt(c.from, 0) => Signed(c, c.wo)
=============================================================================
