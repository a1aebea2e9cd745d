------------------------------ MODULE MCTiers ------------------------------
(***************************************************************************)
(* Tiers folded one after the other: each tier is ranked to the full depth *)
(* (any ranking of it that is one), and containers already listed are      *)
(* passed over.  However ties fall, the outcome is a tiered ranking.       *)
(***************************************************************************)
EXTENDS Ranking, TLC
CONSTANTS N, K, U, Depths, Tiers
VARIABLES C, Ss, depth, tier, out, ghost
vars == <<C, Ss, depth, tier, out, ghost>>

All == AllGCLists(N)
Apart(l) == \A i \in 2..Len(l) : l[i - 1][2] < l[i][1]
Cs == {[i \in 1..Len(l) |-> <<l[i][1], l[i][2], 0>>] : l \in {m \in All : m # <<>> /\ Apart(m)}}

Res(c, S) == LET b == CHOOSE s \in Shortest(c, S) : TRUE IN
             [p |-> b[1], q |-> b[2], cp |-> c[1], cq |-> c[2], s |-> Score(c, S, K, U)]
Sorted(X) == {f \in [1..Cardinality(X) -> X] : \A i, j \in DOMAIN f : i < j => f[i] # f[j] /\ f[i].s >= f[j].s}
Rankings(S) == LET X == {Res(c, S) : c \in Matching(C, S)} IN
               {SubSeq(f, 1, Mn(depth, Len(f))) : f \in Sorted(X)}

RECURSIVE Pass(_, _)
Pass(R, acc) ==
  IF R = <<>> \/ Len(acc) >= depth THEN acc
  ELSE LET r == Head(R) IN
       Pass(Tail(R), IF Holds(Listed(acc), <<r.cp, r.cq>>) THEN acc
                     ELSE Append(acc, [r EXCEPT !.s = depth - Len(acc)]))
Init == C \in Cs /\ Ss \in [1..Tiers -> All] /\ depth \in Depths /\ tier = 1 /\ out = <<>> /\ ghost = TRUE
Next == /\ tier <= Tiers
        /\ \E R \in Rankings(Ss[tier]) :
             /\ ghost' = IsRanking(R, C, Ss[tier], K, U, depth)
             /\ out' = Pass(R, out)
        /\ tier' = IF Len(out') = depth THEN Tiers + 1 ELSE tier + 1
        /\ UNCHANGED <<C, Ss, depth>>
Spec == Init /\ [][Next]_vars
TiersRank == ghost
Tiered == tier > Tiers => IsTiered(out, C, Ss, K, U, depth, 0)
=============================================================================
