----------------------------- MODULE MCOptimizer -----------------------------
(***************************************************************************)
(* The rewrite the optimizer makes, on what queries denote:                *)
(*   (<< (^ a b c) x)  =  (<< (^ (<< (^ a b) x) c) x)                      *)
(* for every choice of lists over 1..N and every order of a, b, c; and the *)
(* left-nested reading of multi-operand forms.                             *)
(***************************************************************************)
EXTENDS GCL, TLC
CONSTANT N
VARIABLES a, b, c, x
L3 == {[j \in 1..Len(l) |-> <<l[j][1], l[j][2], ANY>>] : l \in AllGCLists(N)}
Init == a \in L3 /\ b \in L3 /\ c = <<>> /\ x = <<>>
Next == c = <<>> /\ x = <<>> /\ c' \in L3 /\ x' \in L3 /\ UNCHANGED <<a, b>>
Spec == Init /\ [][Next]_<<a, b, c, x>>
Rewrite == LET q == DIn(DAnd(DAnd(a, b), c), x) IN
  /\ q = DIn(DAnd(DIn(DAnd(a, b), x), c), x)
  /\ q = DIn(DAnd(DIn(DAnd(c, b), x), a), x)
  /\ DAnd(DAnd(a, b), c) = DAnd(a, DAnd(b, c))
  /\ DOr(DOr(a, b), c) = DOr(a, DOr(b, c))
==============================================================================
