----------------------------- MODULE Intervals -----------------------------
(***************************************************************************)
(* Intervals of addresses and generalised concordance lists (GC-lists):    *)
(* the lists of intervals, none inside another, that every Cottontail      *)
(* cursor denotes.  A list is a sequence of <<p, q, v>> in address order.  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

INF == 1000000000            \* the implementation's maxfinity, folded
ANY == -999999999            \* a value the contract does not determine
End  == <<INF, INF, ANY>>    \* the end-of-list marker
Start == <<-INF, -INF, ANY>> \* the start-of-list marker

Inside(x, y)  == y[1] <= x[1] /\ x[2] <= y[2]            \* x inside y, or equal
Strict(x, y)  == Inside(x, y) /\ (x[1] # y[1] \/ x[2] # y[2])
Same(x, y)    == x[1] = y[1] /\ x[2] = y[2]

\* The innermost members of a set of intervals.
Innermost(S) == {x \in S : \A y \in S : ~Strict(y, x)}

\* A set of intervals, none inside another, as a list.
AsList(S) == SetToSortSeq(S, LAMBDA x, y : x[1] < y[1])

IsGC(l) == \A i \in 1..Len(l) :
             /\ l[i][1] <= l[i][2]
             /\ i > 1 => l[i-1][1] < l[i][1] /\ l[i-1][2] < l[i][2]

(***************************************************************************)
(* The least index whose member has field f (1 start, 2 end) at or after k,*)
(* or n+1.  Fields increase along a GC-list.                               *)
(***************************************************************************)
RECURSIVE Bisect(_, _, _, _, _)
Bisect(l, f, k, lo, hi) ==
  IF lo >= hi THEN hi
  ELSE LET mid == (lo + hi) \div 2 IN
       IF l[mid][f] >= k THEN Bisect(l, f, k, lo, mid) ELSE Bisect(l, f, k, mid + 1, hi)
FirstAt(l, f, k) == Bisect(l, f, k, 1, Len(l) + 1)

(***************************************************************************)
(* The contract of a cursor over list l: it depends on l and k alone.      *)
(***************************************************************************)
Tau(l, k) == IF k = -INF THEN Start
             ELSE LET i == FirstAt(l, 1, k) IN
                  IF i > Len(l) \/ k = INF THEN End ELSE l[i]
Rho(l, k) == IF k = -INF THEN Start
             ELSE LET i == FirstAt(l, 2, k) IN
                  IF i > Len(l) \/ k = INF THEN End ELSE l[i]
Uat(l, k) == IF k = INF THEN End
             ELSE LET i == FirstAt(l, 2, k + 1) - 1 IN
                  IF i < 1 \/ k = -INF THEN Start ELSE l[i]
Ohr(l, k) == IF k = INF THEN End
             ELSE LET i == FirstAt(l, 1, k + 1) - 1 IN
                  IF i < 1 \/ k = -INF THEN Start ELSE l[i]
LL(l, k) == Uat(l, k)[1]   \* L(k) and R(k), the extraction helpers
RR(l, k) == Tau(l, k)[2]

Ask(l, op, k) == CASE op = "t" -> Tau(l, k)
                   [] op = "r" -> Rho(l, k)
                   [] op = "u" -> Uat(l, k)
                   [] op = "o" -> Ohr(l, k)
                   [] op = "L" -> <<LL(l, k), LL(l, k), ANY>>
                   [] op = "R" -> <<RR(l, k), RR(l, k), ANY>>

\* An answer r of the implementation agrees with the contract's answer x.
Agrees(x, r) == x[1] = r[1] /\ x[2] = r[2] /\ (x[3] = ANY \/ x[3] = r[3])

(***************************************************************************)
(* All GC-lists over addresses 1..n, as sequences.                         *)
(***************************************************************************)
RECURSIVE GCLists(_, _, _)
GCLists(p, q, n) ==  \* lists whose members start at p or later and end at q or later
  {<<>>} \cup
  UNION { UNION { { <<<<a, b>>>> \o t : t \in GCLists(a + 1, b + 1, n) }
                  : b \in (IF a > q THEN a ELSE q)..n } : a \in p..n }
AllGCLists(n) == GCLists(1, 1, n)
=============================================================================
