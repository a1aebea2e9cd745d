---------------------------- MODULE MCAnnotated ----------------------------
(***************************************************************************)
(* A collection that grows and is annotated, as a whole or range by range, *)
(* at any time.  Read back are the statistics of the items of the last run *)
(* (of the runs, for ranges).                                              *)
(***************************************************************************)
EXTENDS Annotated
CONSTANTS N, Ranges,
          Clears \* a weight that has become nothing replaces the one there was
Texts == << <<"a">>, <<"a", "b", "a">>, <<>>, <<"a", "c">>, <<"c", "c">>, <<"c", "b">> >>
Item(i) == [p |-> 3 * i, q |-> 3 * i + 2, tf |-> Frequencies(Texts[i])]
First(n) == {Item(i) : i \in 1..n}
Voc == Vocabulary(First(N))
Weight(S, t) == LET n == Items(S) d == Df(S, t) IN IF d = 0 \/ 2 * d >= n THEN 0 ELSE RsjArg(n, d, 1000)
VARIABLES n,       \* items so far
          tf,      \* <<t, p, v>>
          weight,  \* <<t, v>>: written at one place for all
          totals,  \* <<at, items, length>>
          seen     \* the items of the last run, or of the runs
vars == <<n, tf, weight, totals, seen>>
Init == n = 0 /\ tf = {} /\ weight = {} /\ totals = {} /\ seen = {}
Grow == n < N /\ n' = n + 1 /\ UNCHANGED <<tf, weight, totals, seen>>
New(S) == UNION {{<<t, x.p, x.tf[t]>> : t \in DOMAIN x.tf} : x \in S}
WholeRun ==
  LET S == First(n)
      W == {<<t, Weight(S, t)>> : t \in {u \in Vocabulary(S) : Clears \/ Weight(S, u) > 0}}
  IN
  /\ ~Ranges /\ n > 0
  /\ tf' = Over(tf, New(S), 2) /\ weight' = Over(weight, W, 1)
  /\ totals' = {<<0, Items(S), Length(S)>>} /\ seen' = S /\ UNCHANGED n
RangeRun(a, b) ==
  LET S == {Item(i) : i \in a..b} IN
  /\ Ranges /\ a <= b /\ b <= n /\ S \cap seen = {}
  /\ tf' = Over(tf, New(S), 2) /\ totals' = Over(totals, {<<Least(S), Items(S), Length(S)>>}, 1)
  /\ seen' = seen \cup S /\ UNCHANGED <<n, weight>>
Next == Grow \/ WholeRun \/ \E a, b \in 1..N : RangeRun(a, b)
Spec == Init /\ [][Next]_vars
Exact ==
  /\ SumAt(totals, 2) = Items(seen) /\ SumAt(totals, 3) = Length(seen)
  /\ \A t \in Voc :
       /\ Cardinality({x \in tf : x[1] = t}) = Df(seen, t)
       /\ {<<x[2], x[3]>> : x \in {y \in tf : y[1] = t}} = {<<z[1], z[3]>> : z \in ToSet(Tfs(seen, t))}
       /\ ~Ranges => SumAt({x \in weight : x[1] = t}, 2) = Weight(seen, t)
=============================================================================
