--------------------------- MODULE CheckedMathGen ---------------------------
(* Enumerates the test programs of C24: expressions x macro form x type.     *)
EXTENDS CheckedMath, Json, SequencesExt, IOUtils
CONSTANTS Seed, Deep, OutFile

a == Var("a")  b == Var("b")  c == Var("c")  n == Var("n")  m == Var("m")  w == Var("w")
R(op, e) == IF op \in {"<<", ">>"} THEN n ELSE e

E1 == {Bin(op, a, R(op, b)) : op \in Ops}
E2 == {Bin(p[1], Bin(p[2], a, R(p[2], b)), R(p[1], c)) : p \in Ops \X Ops}
      \cup {Bin(p[1], a, Bin(p[2], b, R(p[2], c))) : p \in ArithOps \X Ops}
      \cup {Bin(op, a, Bin(q, n, m)) : op \in {"<<", ">>"}, q \in ArithOps}
      \cup {Bin(op, Bin(q, a, b), Bin(q, c, b)) : op \in ArithOps, q \in ArithOps}
\* unary forms; the signed ones only where the language has them
U(e, T, W) == {IdM(e), ParE(e), PowE(e, n), PowE(e, Lit(3)), PowE(e, Bin("+", n, m)), PowE(e, Bin("*", n, m))}
              \cup (IF Signed(T) THEN {NegE(e), AbsE(e)} ELSE {})
Unary(T, W) ==
  LET ua == U(a, T, W)  ub == U(b, T, W) IN
  ua \cup UNION {U(e, T, W) : e \in E1}
  \cup {Bin(op, x, R(op, b)) : op \in Ops, x \in ua}
  \cup {Bin(op, a, x) : op \in ArithOps, x \in ub}
  \cup UNION {U(x, T, W) : x \in ua}
  \cup UNION {U(x, T, W) : x \in U(Bin("+", a, b), T, W) \cup U(Bin("*", a, b), T, W)}
Leaf(T) == UNION {{Bin(op, x, y), Bin(op, y, x)} :
               op \in ArithOps, x \in {Call("b"), FieldE("b"), GroupE(b), IdM(b)}, y \in {a}}
        \cup {Bin(op, a, Lit(k)) : op \in Ops, k \in {0, 1, 7}}
        \cup {Bin(op, GroupE(Bin(q, a, b)), c) : op \in ArithOps, q \in ArithOps}
        \cup {Bin(op, c, GroupE(Bin(q, a, b))) : op \in ArithOps, q \in ArithOps}
        \cup {Bin(op, Call("a"), Call("b")) : op \in ArithOps}
Casts(T, W) == {CastE(e, W) : e \in {a} \cup E1} \cup {Bin(op, CastE(a, W), w) : op \in ArithOps}
        \cup {Bin(op, w, CastE(Bin(q, a, b), W)) : op \in ArithOps, q \in ArithOps}
        \cup {IdM(CastE(Bin("+", a, b), W))}

\* the i-th of the 4-operand expressions: three operators, five tree shapes
OpAt(i) == SetToSeq(Ops)[(i % 7) + 1]
E3at(i) ==
  LET o1 == OpAt(i) o2 == OpAt(i \div 7) o3 == OpAt(i \div 49) s == (i \div 343) % 5
      B(o, l, r) == IF o \in {"<<", ">>"} THEN Bin(o, l, n) ELSE Bin(o, l, r)
      d == a
  IN CASE s = 0 -> B(o3, B(o2, B(o1, a, b), c), d)
       [] s = 1 -> B(o2, B(o1, a, b), B(o3, c, d))
       [] s = 2 -> B(o1, a, B(o2, b, B(o3, c, d)))
       [] s = 3 -> B(o3, B(o1, a, B(o2, b, c)), d)
       [] OTHER -> B(o1, a, B(o3, B(o2, b, c), d))
E3 == IF Deep THEN {E3at(i) : i \in 0..1714}
      ELSE {E3at((Seed * 7919 + j * 389) % 1715) : j \in 0..99}

Types == IF Deep THEN <<<<"i8", "i16">>, <<"u8", "u64">>, <<"i64", "u8">>, <<"u64", "i8">>, <<"i128", "i64">>, <<"u128", "u32">>, <<"i32", "i128">>>>
         ELSE <<<<"i8", "u8">>, <<"u8", "i16">>, <<"i128", "i64">>, <<"u64", "i8">>>>

Prog(form, e, T, W) == [form |-> form, e |-> e, src |-> Render(e, 0), T |-> T, W |-> W,
                        vars |-> SetToSortSeq(Vars(e), LAMBDA x, y : x = y \/ <<x, y>> \in
                            {<<"a","b">>,<<"a","c">>,<<"a","m">>,<<"a","n">>,<<"a","w">>,<<"b","c">>,<<"b","m">>,
                             <<"b","n">>,<<"b","w">>,<<"c","m">>,<<"c","n">>,<<"c","w">>,<<"m","n">>,<<"m","w">>,<<"n","w">>})]
\* fewer operand values for expressions of three operands
DomOf(p, i) == IF p.vars[i] \in {"a", "b", "c"} /\ Cardinality(Range(p.vars) \cap {"a", "b", "c"}) = 3
               THEN ShortDomain(p.T) ELSE Domain(p.vars[i], p.T, p.W)
WithDom(p) == [p EXCEPT !.vars = [i \in DOMAIN p.vars |-> [v |-> p.vars[i], ty |-> TyOf(p.vars[i], p.T, p.W),
                                                     dom |-> [j \in DOMAIN DomOf(p, i) |-> ToString(DomOf(p, i)[j])]]]]
AssignRhs(T, W) == {b, Bin("+", b, c), Bin("*", b, c), Bin("-", b, c), ParE(Bin("/", b, c))} \cup U(b, T, W)
Programs(T, W, main) ==
  LET opt == E1 \cup E2 \cup Unary(T, W) \cup Leaf(T) \cup Casts(T, W) \cup (IF main THEN E3 ELSE {})
      pan == E1 \cup Leaf(T) \cup Casts(T, W) \cup {Bin("-", Bin("+", a, b), c), GroupE(Bin("+", a, b)), GroupE(Bin("*", a, Bin("-", b, c)))}
  IN {Prog("opt", e, T, W) : e \in opt} \cup {Prog("panic", e, T, W) : e \in pan}
     \cup {[Prog("assign", Bin(op, a, e), T, W) EXCEPT !.src = "a " \o op \o "= " \o Render(e, 0)]
             : op \in {"+", "-", "*", "/"}, e \in AssignRhs(T, W)}
All == UNION {Programs(Types[i][1], Types[i][2], Deep \/ i <= 2) : i \in DOMAIN Types}
ASSUME ndJsonSerialize(OutFile, LET s == SetToSeq(All) IN [i \in DOMAIN s |-> WithDom(s[i])])
=============================================================================
