--------------------------- MODULE MarginTradeTrace ---------------------------
(* Checks what the real program did on each call. *)
EXTENDS MarginTrade, Json, TLC
CONSTANTS TraceFile, Stride
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)
C25_Inv == LET c == Trace[l]  x == Outcome(c.pre, c) IN
  /\ Rule(l, "C25 a call succeeds exactly when both transfers can be made in full", (c.ok = 1) <=> x.ok)
  /\ c.ok = 0 => Rule(l, "C25 a failed call changes nothing", Same(c.post, c.pre))
  /\ c.ok = 1 => Rule(l, "C25 the stated amounts move, and nothing else", Promised(c.pre, c, c.post))
  /\ (c.ok = 1 /\ x.ok) => Rule(l, "C25 the token accounts afterwards",
        \A i \in DOMAIN c.pre : \A f \in {"k", "o", "m", "n", "fz", "dl"} : Same(c.post[i][f], x.s[i][f]))
  /\ (c.ok = 1 /\ x.ok) => Rule(l, "C25 delegated amounts",
        \A i \in DOMAIN c.pre : c.post[i].dl # -1 => Eq(c.post[i].dn, x.s[i].dn))
=============================================================================
