-------------------------- MODULE CheckedMathTrace --------------------------
(* Checks the results observed from the real macros: line l of the trace has
   one program and its results, one per valuation in the enumeration order. *)
EXTENDS CheckedMath, Json, IOUtils
CONSTANTS TraceFile, Stride
Trace == ndJsonDeserialize(TraceFile)
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
RECURSIVE Size(_)
Size(vs) == IF vs = <<>> THEN 1 ELSE Len(Head(vs).dom) * Size(Tail(vs))
\* the k-th valuation (0-based; the last variable varies fastest)
RECURSIVE Env(_, _)
Env(vs, k) == IF vs = <<>> THEN <<>>
              ELSE LET sz == Size(Tail(vs)) IN
                   (Head(vs).v :> Head(vs).dom[((k \div sz) % Len(Head(vs).dom)) + 1]) @@ Env(Tail(vs), k)
Expect(p, k) == Eval(p.e, Env(p.vars, k), p.T, p.W)
Agrees(r, x, form) == IF x.ok THEN r # "N" /\ r # "P" /\ r # "X" /\ Eq(r, x.n)
                      ELSE r = (IF form = "opt" THEN "N" ELSE "P")
Mismatch(p) == {k \in 0..(Size(p.vars) - 1) : ~Agrees(p.res[k + 1], Expect(p, k), p.form)}
C24 == /\ Len(Trace[l].res) = Size(Trace[l].vars)
       /\ \A k \in 0..(Size(Trace[l].vars) - 1) : Agrees(Trace[l].res[k + 1], Expect(Trace[l], k), Trace[l].form)
\* evaluated after a violation
Alias == [line |-> l, src |-> Trace[l].src, form |-> Trace[l].form, type |-> Trace[l].T,
          first |-> IF C24 THEN "" ELSE LET k == CHOOSE k \in Mismatch(Trace[l]) : \A j \in Mismatch(Trace[l]) : k <= j
                    IN [operands |-> Env(Trace[l].vars, k), observed |-> Trace[l].res[k + 1],
                        expected |-> Expect(Trace[l], k)]]
Spec == Init /\ [][Next]_l
=============================================================================
