------------------------------- MODULE MCGCL -------------------------------
(***************************************************************************)
(* The cursor algorithms of the structural operators, written as they work *)
(* (each question answered from questions to the operand cursors), checked *)
(* against what the operators denote, for every pair of GC-lists over      *)
(* addresses 1..N and every question.                                      *)
(***************************************************************************)
EXTENDS GCL, TLC
CONSTANT N
VARIABLES A, B, op

Keys == {-INF, -INF + 1} \cup (0..(N + 2)) \cup {INF - 1, INF}
Strip(r) == <<r[1], r[2]>>
T(l, k) == Tau(l, k)  R(l, k) == Rho(l, k)
U(l, k) == Uat(l, k)  O(l, k) == Ohr(l, k)

\* --- combinational operators are defined by their extraction helpers L, R
CL(o, a, b, k) ==
  CASE o = "^" -> Mn(LL(a, k), LL(b, k))
    [] o = "+" -> Mx(LL(a, k), LL(b, k))
    [] o = "..." -> LET ll == LL(b, k) IN IF ll \in {-INF, INF} THEN ll ELSE LL(a, ll - 1)
CR(o, a, b, k) ==
  CASE o = "^" -> Mx(RR(a, k), RR(b, k))
    [] o = "+" -> Mn(RR(a, k), RR(b, k))
    [] o = "..." -> LET rr == RR(a, k) IN IF rr \in {-INF, INF} THEN rr ELSE RR(b, rr + 1)
CTau(o, a, b, k) == LET q == CR(o, a, b, k) IN <<CL(o, a, b, q), q>>
CUat(o, a, b, k) == LET p == CL(o, a, b, k) IN <<p, CR(o, a, b, p)>>
CRho(o, a, b, k) ==
  IF k = -INF THEN <<-INF, -INF>>
  ELSE LET ll == CL(o, a, b, k - 1) IN
       IF ll = INF THEN <<INF, INF>> ELSE CTau(o, a, b, ll + 1)
COhr(o, a, b, k) ==
  IF k = INF THEN <<INF, INF>>
  ELSE LET rr == CR(o, a, b, k + 1) IN
       IF rr = -INF THEN <<-INF, -INF>> ELSE CUat(o, a, b, rr - 1)

\* --- selections gallop over both operands
RECURSIVE InTau(_, _, _), InUat(_, _, _), HasRho(_, _, _), HasOhr(_, _, _),
          NInT(_, _, _), NInU(_, _, _), NHasR(_, _, _), NHasO(_, _, _)
InTau(a, b, k) == LET x == T(a, k) IN
  IF x[1] = INF THEN x ELSE LET y == R(b, x[2]) IN IF y[1] <= x[1] THEN x ELSE InTau(a, b, y[1])
InUat(a, b, k) == LET x == U(a, k) IN
  IF x[2] = -INF THEN x ELSE LET y == O(b, x[1]) IN IF y[2] >= x[2] THEN x ELSE InUat(a, b, y[2])
HasRho(a, b, k) == LET x == R(a, k) IN
  IF x[2] = INF THEN x ELSE LET y == T(b, x[1]) IN IF y[2] <= x[2] THEN x ELSE HasRho(a, b, y[2])
HasOhr(a, b, k) == LET x == O(a, k) IN
  IF x[1] = -INF THEN x ELSE LET y == U(b, x[2]) IN IF y[1] >= x[1] THEN x ELSE HasOhr(a, b, y[1])
NInT(a, b, x) == IF x[1] = INF \/ x[2] = -INF THEN x
  ELSE LET y == R(b, x[2]) IN IF y[1] > x[1] THEN x ELSE NInT(a, b, R(a, y[2] + 1))
NInU(a, b, x) == IF x[1] = INF \/ x[2] = -INF THEN x
  ELSE LET y == O(b, x[1]) IN IF y[2] < x[2] THEN x ELSE NInU(a, b, O(a, y[1] - 1))
NHasR(a, b, x) == IF x[2] = INF \/ x[1] = -INF THEN x
  ELSE LET y == T(b, x[1]) IN IF y[2] > x[2] THEN x ELSE NHasR(a, b, T(a, y[1] + 1))
NHasO(a, b, x) == IF x[2] = INF \/ x[1] = -INF THEN x
  ELSE LET y == U(b, x[2]) IN IF y[1] < x[1] THEN x ELSE NHasO(a, b, U(a, y[2] - 1))

\* --- two-way merge
MTau(a, b, k) == LET x == T(a, k)  y == T(b, k) IN
  IF x[2] < y[2] THEN x ELSE IF x[2] > y[2] THEN y ELSE IF x[1] < y[1] THEN y ELSE x
MUat(a, b, k) == LET x == U(a, k)  y == U(b, k) IN
  IF x[1] > y[1] THEN x ELSE IF y[1] > x[1] THEN y ELSE IF x[2] > y[2] THEN y ELSE x
MRho(a, b, k) == IF k = -INF THEN Start
  ELSE LET l == MUat(a, b, k - 1)[1] IN IF l = INF THEN End ELSE MTau(a, b, l + 1)
MOhr(a, b, k) == IF k = INF THEN End
  ELSE LET r == MTau(a, b, k + 1)[2] IN IF r = -INF THEN Start ELSE MUat(a, b, r - 1)

Comb == {"^", "+", "..."}
Alg(qn, k) ==
  IF op \in Comb THEN
    CASE qn = "t" -> CTau(op, A, B, k) [] qn = "r" -> CRho(op, A, B, k)
      [] qn = "u" -> CUat(op, A, B, k) [] qn = "o" -> COhr(op, A, B, k)
  ELSE CASE op = "<<" ->
    (CASE qn = "t" -> InTau(A, B, k) [] qn = "r" -> InTau(A, B, R(A, k)[1])
       [] qn = "u" -> InUat(A, B, k) [] qn = "o" -> InUat(A, B, O(A, k)[2]))
  [] op = ">>" ->
    (CASE qn = "r" -> HasRho(A, B, k) [] qn = "t" -> HasRho(A, B, T(A, k)[2])
       [] qn = "o" -> HasOhr(A, B, k) [] qn = "u" -> HasOhr(A, B, U(A, k)[1]))
  [] op = "!<" ->
    (CASE qn = "t" -> NInT(A, B, T(A, k)) [] qn = "r" -> NInT(A, B, T(A, R(A, k)[1]))
       [] qn = "u" -> NInU(A, B, U(A, k)) [] qn = "o" -> NInU(A, B, U(A, O(A, k)[2])))
  [] op = "!>" ->
    (CASE qn = "r" -> NHasR(A, B, R(A, k)) [] qn = "t" -> NHasR(A, B, R(A, T(A, k)[2]))
       [] qn = "o" -> NHasO(A, B, O(A, k)) [] qn = "u" -> NHasO(A, B, O(A, U(A, k)[1])))
  [] op = "M" ->
    (CASE qn = "t" -> MTau(A, B, k) [] qn = "r" -> MRho(A, B, k)
       [] qn = "u" -> MUat(A, B, k) [] qn = "o" -> MOhr(A, B, k))

Lists == {[j \in 1..Len(l) |-> <<l[j][1], l[j][2], 7 * l[j][1] + l[j][2]>>] : l \in AllGCLists(N)}
Init == A \in Lists /\ B \in Lists /\ op = "none"
Next == op = "none" /\ op' \in Comb \cup {"<<", ">>", "!<", "!>", "M"} /\ UNCHANGED <<A, B>>
Spec == Init /\ [][Next]_<<A, B, op>>

Sound == op # "none" =>
  LET d == DOp(op, A, B) IN
  /\ IsGC(d)
  /\ \A k \in Keys : \A qn \in {"t", "r", "u", "o"} : Strip(Alg(qn, k)) = Strip(Ask(d, qn, k))
  /\ op \in Comb => \A k \in Keys : CL(op, A, B, k) = LL(d, k) /\ CR(op, A, B, k) = RR(d, k)

(***************************************************************************)
(* Algebraic facts the optimizer and the definitions rely on.              *)
(***************************************************************************)
S2(l) == {Strip(x) : x \in Rng(l)}
Laws == op # "none" =>
  /\ S2(DAnd(A, B)) = S2(DAnd(B, A))
  /\ S2(DOr(A, B)) = S2(DOr(B, A))
  /\ Rng(DIn(A, B)) \cup Rng(DNotIn(A, B)) = Rng(A)
  /\ Rng(DHas(A, B)) \cup Rng(DNotHas(A, B)) = Rng(A)
  /\ DIn(DIn(A, B), B) = DIn(A, B)
  /\ S2(DMerge(A, B)) = S2(DOr(A, B))
=============================================================================
