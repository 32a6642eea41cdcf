-------------------------------- MODULE Mango --------------------------------
(* The recorded executions of the real program and how the specification looks
   at them.  A trace line is [w, op, ok, code, sub, pre, post]: one instruction
   (sub = 1: inside a transaction of several) or one transaction, with the
   program's complete state before and after.  States hold component numbers:
   equal numbers mean an unchanged component. *)
EXTENDS Fx, Sequences, FiniteSets, TLC, Json
CONSTANTS TraceFile, CompFile
Trace == ndJsonDeserialize(TraceFile)
Comp == ndJsonDeserialize(CompFile)

Range(f) == {f[x] : x \in DOMAIN f}
G(r, k, d) == IF k \in DOMAIN r THEN r[k] ELSE d        \* field with default
SumOf(S, F(_)) ==                                       \* sum of F over a finite set of numbers
  SumSeq([k \in 1..Cardinality(S) |->
            F(CHOOSE x \in S : Cardinality({y \in S : y < x}) = k - 1)])
Sum(n, F(_)) == SumSeq([k \in 1..n |-> F(k)])           \* F(1) + ... + F(n)
Sum0(n, F(_)) == SumSeq([k \in 1..n |-> F(k - 1)])      \* F(0) + ... + F(n-1)

----------------------------------------------------------------------------
\* State accessors; tokens, markets and accounts are numbered from 0
Grp(s) == Comp[s.g]
NTok(s) == Len(s.T)
NAcc(s) == Len(s.A)
NPerp(s) == Len(s.P)
NSpot(s) == Len(s.S)
Toks(s) == 0..(NTok(s) - 1)
Accs(s) == {a \in 0..(NAcc(s) - 1) : Comp[s.A[a + 1]].live = 1}
AllAccs(s) == 0..(NAcc(s) - 1)
Perps(s) == {p \in 0..(NPerp(s) - 1) : Comp[s.P[p + 1]].live = 1}
Spots(s) == {p \in 0..(NSpot(s) - 1) : Comp[s.S[p + 1]].live = 1}
Tok(s, t) == Comp[s.T[t + 1]]
Acc(s, a) == Comp[s.A[a + 1]]
Live(s, a) == a \in AllAccs(s) /\ Acc(s, a).live = 1
NBank(s, t) == Len(s.B[t + 1])
Bank(s, t, b) == Comp[s.B[t + 1][b + 1]]
Bank0(s, t) == Bank(s, t, 0)
Perp(s, p) == Comp[s.P[p + 1]]
Bids(s, p) == Comp[s.BD[p + 1]]
Asks(s, p) == Comp[s.AK[p + 1]]
EQ(s, p) == Comp[s.EQ[p + 1]]
Ora(s, t) == Comp[s.O[t + 1]]
FbOra(s, t) == Comp[s.F[t + 1]]
POra(s, p) == Comp[s.PO[p + 1]]
Spot(s, m) == Comp[s.S[m + 1]]
OO(s, a, m) == Comp[s.OO[a + 1][m + 1]]
Wal(s, a) == Comp[s.W[a + 1]]
Hlt(s, a) == Comp[s.H[a + 1]]

\* Token position of account record A in token t: its slot, or 0
TSlot(A, t) == LET S == {k \in DOMAIN A.tp : A.tp[k].i = t} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
HasTok(A, t) == TSlot(A, t) # 0
TPos(A, t) == A.tp[TSlot(A, t)]
TIdx(A, t) == IF HasTok(A, t) THEN TPos(A, t).x ELSE 0      \* indexed position
PSlot(A, p) == LET S == {k \in DOMAIN A.pp : A.pp[k].m = p} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
HasPerp(A, p) == PSlot(A, p) # 0
PPos(A, p) == A.pp[PSlot(A, p)]
SSlot(A, m) == LET S == {k \in DOMAIN A.s3 : A.s3[k].m = m} IN IF S = {} THEN 0 ELSE CHOOSE k \in S : TRUE
HasSpot(A, m) == SSlot(A, m) # 0
SPos(A, m) == A.s3[SSlot(A, m)]

\* Value in native units (fixed point) of an indexed position at a bank's indexes
Native(x, bk) == FxMul(x, IF IsPos(x) THEN bk.di ELSE bk.bi)
TNat(s, a, t) == Native(TIdx(Acc(s, a), t), Bank0(s, t))

\* the fields in which two records differ
Changed(a, b) == {k \in DOMAIN a : ~Same(a[k], b[k])}
NBanks(s) == [t \in Toks(s) |-> NBank(s, t)]
Banks(s, t) == {b \in 0..(NBank(s, t) - 1) : Bank(s, t, b).live = 1}
\* Live in both states
BothBanks(L, t) == Banks(L.post, t) \cap (IF t \in Toks(L.pre) THEN Banks(L.pre, t) ELSE {})
----------------------------------------------------------------------------
\* Rules
Rule(i, name, cond) == IF cond THEN Hit(name) ELSE Miss(i, name)
=============================================================================
