-------------------------------- MODULE GCL --------------------------------
(***************************************************************************)
(* What a structural query denotes.  A query is a tree                     *)
(*   [op |-> "t", f |-> feature] | [op |-> "#", n |-> width]               *)
(*   [op |-> o, x |-> <<operands>>]                                        *)
(* and Den(query, lists) is the GC-list of its solutions, where lists maps *)
(* each feature to its GC-list.                                            *)
(***************************************************************************)
EXTENDS Intervals, FiniteSetsExt

Mn(a, b) == IF a < b THEN a ELSE b
Mx(a, b) == IF a > b THEN a ELSE b
Rng(l) == {l[i] : i \in 1..Len(l)}

\* Minimal intervals holding a solution of both / of either / in order.
DAnd(A, B) == AsList(Innermost({<<Mn(a[1], b[1]), Mx(a[2], b[2]), ANY>> : a \in Rng(A), b \in Rng(B)}))
DOr(A, B)  == AsList(Innermost({<<x[1], x[2], ANY>> : x \in Rng(A) \cup Rng(B)}))
DSeq(A, B) == AsList(Innermost({<<ab[1][1], ab[2][2], ANY>> :
                 ab \in {xy \in Rng(A) \X Rng(B) : xy[1][2] < xy[2][1]}}))

\* Selection: members of A, unchanged.
DIn(A, B)     == SelectSeq(A, LAMBDA a : \E b \in Rng(B) : Inside(a, b))
DHas(A, B)    == SelectSeq(A, LAMBDA a : \E b \in Rng(B) : Inside(b, a))
DNotIn(A, B)  == SelectSeq(A, LAMBDA a : ~\E b \in Rng(B) : Inside(a, b))
DNotHas(A, B) == SelectSeq(A, LAMBDA a : ~\E b \in Rng(B) : Inside(b, a))

\* Merge: innermost of both, the left value for an interval in both lists.
DMerge(A, B) ==
  LET only == {b \in Rng(B) : ~\E a \in Rng(A) : Same(a, b)}
  IN AsList(Innermost(Rng(A) \cup only))
\* The k-way merge of a feature's lists: a later list's value wins.
DVector(Ls) ==
  LET S == UNION {{<<Ls[i][j][1], Ls[i][j][2], Ls[i][j][3], i>> : j \in 1..Len(Ls[i])} : i \in 1..Len(Ls)}
      last == {x \in S : ~\E y \in S : Same(x, y) /\ y[4] > x[4]}
  IN AsList({<<x[1], x[2], x[3]>> : x \in Innermost(last)})

\* Link: the addresses stored as values of A, each as an interval of length 1.
DLink(A) == LET S == {<<a[3], a[3], 0>> : a \in Rng(A)} IN AsList(S)

\* Term frequencies: the items of B at whose start A stores a frequency.
DTf(A, B) == LET S == {<<ab[2][1], ab[2][2], ab[1][3]>> : ab \in {xy \in Rng(A) \X Rng(B) : xy[1][1] = xy[2][1]}}
             IN AsList(S)

\* FixedWidth as the container of <<, the left of >>, the container in !<:
\* every window [i, i+n-1]; symbolic because there are infinitely many.
Width(x) == x[2] - x[1] + 1
DInWidth(A, n)    == SelectSeq(A, LAMBDA a : Width(a) <= n)
DNotInWidth(A, n) == SelectSeq(A, LAMBDA a : Width(a) > n)

RECURSIVE Den(_, _), Fold(_, _, _, _)
DOp(op, A, B) == CASE op = "^" -> DAnd(A, B)
                   [] op = "+" -> DOr(A, B)
                   [] op = "..." -> DSeq(A, B)
                   [] op = "<<" -> DIn(A, B)
                   [] op = ">>" -> DHas(A, B)
                   [] op = "!<" -> DNotIn(A, B)
                   [] op = "!>" -> DNotHas(A, B)
                   [] op = "M" -> DMerge(A, B)
                   [] op = "T" -> DTf(A, B)
Fold(op, acc, xs, lists) ==
  IF xs = <<>> THEN acc
  ELSE LET b == Head(xs) IN
       Fold(op,
            IF b.op = "#" THEN (IF op = "<<" THEN DInWidth(acc, b.n) ELSE DNotInWidth(acc, b.n))
            ELSE DOp(op, acc, Den(b, lists)),
            Tail(xs), lists)
Den(e, lists) ==
  CASE e.op = "t" -> lists[e.f]
    [] e.op = "@" -> DLink(Den(e.x[1], lists))
    [] e.op = "m" -> Den(e.x[1], lists)
    [] e.op = "V" -> DVector([i \in 1..Len(e.x) |-> Den(e.x[i], lists)])
    [] OTHER -> Fold(e.op, Den(e.x[1], lists), Tail(e.x), lists)
=============================================================================
