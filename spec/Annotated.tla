----------------------------- MODULE Annotated -----------------------------
(***************************************************************************)
(* Ranking statistics written into a collection for all of its items at    *)
(* once, or range by range, and read back from it.  What an annotator saw  *)
(* is what is read until it is run again: then nothing of the earlier run  *)
(* shows.                                                                  *)
(*  idf    frequencies over each item, weights and average length worked   *)
(*         out when written; terms as stemmed, or as stemmed and as they   *)
(*         are                                                             *)
(*  df     frequencies at each item's start, totals; weights worked out    *)
(*         from the frequencies there are                                  *)
(*  tf     as df, for the items of a range; totals add up over ranges      *)
(*  field  as df, for each of several parts of an item; read with a weight *)
(*         for each part                                                   *)
(***************************************************************************)
EXTENDS Forage
\* How often each term occurs, unchanged stems not counted twice.
BothWays(words, stems) ==
  [t \in ToSet(words) \cup ToSet(stems) |->
     Cardinality({k \in DOMAIN words : words[k] = t}) + Cardinality({k \in DOMAIN stems : stems[k] = t /\ words[k] # t})]
\* The part of an item: the first interval of the part's list to start in it, if it ends there too.
PartIn(p, q, l) == LET S == {x \in l : x[1] >= p} IN
                   IF S = {} THEN <<>>
                   ELSE LET x == CHOOSE y \in S : \A z \in S : y[1] <= z[1] IN IF x[2] <= q THEN x ELSE <<>>
At(f, t) == IF t \in DOMAIN f THEN f[t] ELSE 0
Weighted(fs, ws, t) == FoldSet(LAMBDA k, s : s + ws[k] * At(fs[k], t), 0, DOMAIN fs)
\* Weights are one for each part, none negative, not all nothing.
GoodWeights(ws, n) == Len(ws) = n /\ (\A k \in DOMAIN ws : ws[k] >= 0) /\ \E k \in DOMAIN ws : ws[k] > 0
=============================================================================
