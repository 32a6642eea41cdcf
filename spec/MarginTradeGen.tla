---------------------------- MODULE MarginTradeGen ----------------------------
(* Every call on a set of small ledgers: checks what is promised on the
   specification itself and writes the calls for replay on the real program. *)
EXTENDS MarginTrade, FiniteSets, SequencesExt, Json, TLC
CONSTANTS OutFile, Deep
T(o, m, n) == [k |-> 0, o |-> o, m |-> m, n |-> n, fz |-> 0, dl |-> -1, dn |-> 0]
\* keys 0, 1: users; 2: the program's address; 3: another address it can derive
Ledgers == <<
  <<T(0, 0, 2), T(2, 0, 1), T(1, 0, 2)>>,
  <<T(0, 0, 1), T(2, 0, 0), T(2, 1, 1)>>,
  <<[T(0, 0, 2) EXCEPT !.dl = 1, !.dn = 1], T(3, 0, 1), [T(1, 0, 1) EXCEPT !.dl = 2, !.dn = 2]>>,
  <<T(0, 0, 2), [T(2, 0, 2) EXCEPT !.fz = 1], [T(1, 0, 0) EXCEPT !.k = 1]>>,
  <<T(2, 0, 2), T(3, 0, 1), [T(1, 0, 0) EXCEPT !.k = 2]>> >>
Calls == [w : 0..2, d : 0..2, wo : 0..3, do : 0..3, ws : 0..1, ds : 0..1, bump : {-1, 2, 3},
          from : 0..2, to : IF Deep THEN 0..4 ELSE 0..3, ww : {1}, dw : {1}, tp : {0}, extra : {0}]
\* the remaining switches, on the ordinary call
Odd == [w : {0}, d : {1}, wo : {0, 2}, do : {1, 2}, ws : 0..1, ds : {0}, bump : {2}, from : 0..1, to : 0..1,
        ww : 0..1, dw : 0..1, tp : 0..1, extra : 0..1]
\* quick: calls that differ from the ordinary one in few places
Ordinary == [w |-> 0, d |-> 1, wo |-> 0, do |-> 2, ws |-> 1, ds |-> 0, bump |-> 2]
Far(c) == Cardinality({k \in DOMAIN Ordinary : c[k] # Ordinary[k]})
Use == (IF Deep THEN Calls ELSE {c \in Calls : Far(c) <= 3}) \cup Odd
VARIABLE c
Init == c \in Use
Next == UNCHANGED c
Sound == \A i \in DOMAIN Ledgers : LET r == Outcome(Ledgers[i], c) IN r.ok => Promised(Ledgers[i], c, r.s)
\* nobody is paid out of nothing: the ledger's total per mint is kept
Total(s, m) == SumSeq([i \in DOMAIN s |-> IF s[i].k = 0 /\ s[i].m = m THEN s[i].n ELSE 0])
Conserved == \A i \in DOMAIN Ledgers : LET r == Outcome(Ledgers[i], c) IN r.ok => \A m \in 0..1 : Eq(Total(r.s, m), Total(Ledgers[i], m))
Cases == LET s == SetToSeq(Use) IN
  [j \in 1..(Len(s) * Len(Ledgers)) |-> [accs |-> Ledgers[((j - 1) % Len(Ledgers)) + 1]] @@ s[((j - 1) \div Len(Ledgers)) + 1]]
ASSUME OutFile = "" \/ ndJsonSerialize(OutFile, Cases)
Spec == Init /\ [][Next]_c
=============================================================================
