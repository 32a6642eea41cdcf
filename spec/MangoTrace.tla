----------------------------- MODULE MangoTrace -----------------------------
(* Validates recorded executions line by line against the rules of one
   property (Line is substituted by the configuration). *)
EXTENDS C01, C02, C03, C11, C12, C13, C17, C22, C20, C08, C19, C06, C18, C10, C23, C16, C15, C07, C21, C14, C04, C05, C28, C29, C30
CONSTANT Stride
VARIABLE l
Init == l \in 1..Stride /\ l <= Len(Trace)
Next == l + Stride <= Len(Trace) /\ l' = l + Stride
Spec == Init /\ [][Next]_l
C05_Inv == C05_Line(l)
C04_Inv == C04_Line(l)
C14_Inv == C14_Line(l)
C21_Inv == C21_Line(l)
C07_Inv == C07_Line(l)
C15_Inv == C15_Line(l)
C16_Inv == C16_Line(l)
C23_Inv == C23_Line(l)
C28_Inv == C28_Line(l)
C29_Inv == C29_Line(l)
C30_Inv == C30_Line(l)
C10_Inv == C10_Line(l)
C18_Inv == C18_Line(l)
C06_Inv == C06_Line(l)
C19_Inv == C19_Line(l)
C08_Inv == C08_Line(l)
C20_Inv == C20_Line(l)
C01_Inv == C01_Line(l)
C02_Inv == C02_Line(l)
C09_Inv == C09_Line(l)
C11_Inv == C11_Line(l)
C12_Inv == C12_Line(l)
C22_Inv == C22_Line(l)
C13_Inv == C13_Line(l)
C17_Inv == C17_Line(l)
C03_Inv == C03_Line(l)
=============================================================================
