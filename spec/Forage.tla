------------------------------- MODULE Forage -------------------------------
(***************************************************************************)
(* Term statistics over the items of a collection.  An item is a range of  *)
(* addresses with its terms in order; what is reported about a set of      *)
(* items is counting, and foraging leaves annotations from which the same  *)
(* counts are read back.                                                   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt

(* --- what the statistics are ---------------------------------------------- *)
\* An item: [p, q, tf], tf from terms to how often each occurs.
Frequencies(terms) == [t \in ToSet(terms) |-> Cardinality({i \in DOMAIN terms : terms[i] = t})]
Having(S, t) == {x \in S : t \in DOMAIN x.tf}
Df(S, t) == Cardinality(Having(S, t))
Tfs(S, t) == SetToSortSeq({<<x.p, x.q, x.tf[t]>> : x \in Having(S, t)}, LAMBDA a, b : a[1] < b[1])
Items(S) == Cardinality(S)
Length(S) == FoldSet(LAMBDA x, n : n + x.q - x.p + 1, 0, S)
Vocabulary(S) == UNION {DOMAIN x.tf : x \in S}

(* --- what follows from them ------------------------------------------------ *)
\* The logarithms' arguments, as integers in units of 1/s, rounded somehow; 1 where the logarithm is cut off or undefined.
IdfArg(n, d, s) == IF d = 0 THEN s ELSE (n * s) \div d
RsjArg(n, d, s) == IF d = 0 \/ 2 * d > n THEN s ELSE ((2 * (n - d) + 1) * s) \div (2 * d + 1)
Near(x, y) == x - y \in {-1, 0, 1}

(* --- what foraging leaves in the collection -------------------------------- *)
\* Annotations of a transaction that saw the items S: frequencies at each item's start, the rest at the least of them.
Least(S) == Min({x.p : x \in S})
Left(S) ==
  IF S = {} THEN [tf |-> {}, df |-> {}, items |-> {}, length |-> {}]
  ELSE [tf |-> UNION {{<<t, x.p, x.tf[t]>> : t \in DOMAIN x.tf} : x \in S},
        df |-> {<<t, Least(S), Df(S, t)>> : t \in Vocabulary(S)},
        items |-> {<<Least(S), Items(S)>>},
        length |-> {<<Least(S), Length(S)>>}]
\* One list each; a later value at the same place replaces the earlier.
Over(A, B, k) == {a \in A : ~\E b \in B : SubSeq(a, 1, k) = SubSeq(b, 1, k)} \cup B
Stored(A, L) == [tf |-> Over(A.tf, L.tf, 2), df |-> Over(A.df, L.df, 2),
                 items |-> Over(A.items, L.items, 1), length |-> Over(A.length, L.length, 1)]
Nothing == Left({})
SumAt(A, k) == FoldSet(LAMBDA x, n : n + x[k], 0, A)
ReadItems(A) == SumAt(A.items, 2)
ReadLength(A) == SumAt(A.length, 2)
ReadDf(A, t) == Cardinality({x \in A.tf : x[1] = t})
SumDf(A, t) == SumAt({x \in A.df : x[1] = t}, 3)
=============================================================================
