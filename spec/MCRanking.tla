----------------------------- MODULE MCRanking -----------------------------
(***************************************************************************)
(* The walk that ranks: two cursors over containers and solutions, results *)
(* kept in batches that are merged into the best so far; and the division  *)
(* of the containers among shares of the work.  Explored over every set of *)
(* containers and every list of solutions on a few positions, every depth  *)
(* and number of shares, and every way a sort may order equal scores.      *)
(***************************************************************************)
EXTENDS Ranking, TLC
CONSTANTS N, K, U, Depths, Shares

Ss == AllGCLists(N)
Apart(l) == \A i \in 2..Len(l) : l[i - 1][2] < l[i][1]
Cs == {[i \in 1..Len(l) |-> <<l[i][1], l[i][2], 0>>] : l \in {m \in Ss : m # <<>> /\ Apart(m)}}

VARIABLES C, S, depth, share, bounds, done, cp, cq, p, q, score, best, top, current, total, pc
vars == <<C, S, depth, share, bounds, done, cp, cq, p, q, score, best, top, current, total, pc>>

\* the best of two lists of results, in any order a sort may leave
Orders(X) == {f \in [1..Cardinality(X) -> X] :
                /\ \A i, j \in DOMAIN f : i < j => f[i] # f[j] /\ f[i].s >= f[j].s}
Best(A, B, d) == {SubSeq(f, 1, Mn(d, Len(f))) : f \in Orders({A[i] : i \in 1..Len(A)} \cup {B[i] : i \in 1..Len(B)})}

Low == C[1][1]
High == C[Len(C)][2] + 1
\* bounds of the shares: as even as can be
Cuts(n) == [i \in 0..n |-> Low + ((High - Low) \div n) * i + (((High - Low) % n) * i) \div n]

Init ==
  /\ C \in Cs /\ S \in Ss /\ depth \in Depths
  /\ \E n \in Shares : bounds = Cuts(n)
  /\ share = 1 /\ done = <<>> /\ total = <<>> /\ pc = "start"
  /\ cp = 0 /\ cq = 0 /\ p = 0 /\ q = 0 /\ score = 0 /\ best = <<INF, INF>> /\ top = <<>> /\ current = <<>>

From == bounds[share - 1]
To == bounds[share]
Target == IF Len(top) = depth THEN top[Len(top)].s ELSE 0
Keep == UNCHANGED <<C, S, depth, bounds>>

Begin ==
  /\ pc = "start" /\ share \in DOMAIN bounds
  /\ LET c == Tau(C, From) IN
     /\ cp' = c[1] /\ cq' = c[2]
     /\ IF c[1] >= To \/ From >= To
        THEN /\ pc' = "end" /\ UNCHANGED <<p, q>>
        ELSE LET h == Tau(S, c[1]) IN p' = h[1] /\ q' = h[2] /\ pc' = "walk"
  /\ score' = 0 /\ best' = <<INF, INF>> /\ top' = <<>> /\ current' = <<>>
  /\ UNCHANGED <<share, done, total>> /\ Keep

Result == [p |-> best[1], q |-> best[2], cp |-> cp, cq |-> cq, s |-> score]
\* the container behind is finished: keep it if it can still matter
Flush ==
  IF score > Target
  THEN LET cur == Append(current, Result) IN
       IF Len(cur) = depth THEN top' \in Best(top, cur, depth) /\ current' = <<>>
       ELSE current' = cur /\ UNCHANGED top
  ELSE UNCHANGED <<top, current>>
Walk ==
  /\ pc = "walk" /\ p < INF /\ cq < INF /\ cp < To
  /\ UNCHANGED <<share, done, total, pc>> /\ Keep
  /\ \/ /\ p < cp
        /\ LET h == Tau(S, cp) IN p' = h[1] /\ q' = h[2]
        /\ UNCHANGED <<cp, cq, score, best, top, current>>
     \/ /\ p >= cp /\ q > cq
        /\ Flush
        /\ score' = 0 /\ best' = <<INF, INF>>
        /\ LET c == Rho(C, q) IN cp' = c[1] /\ cq' = c[2]
        /\ UNCHANGED <<p, q>>
     \/ /\ p >= cp /\ q <= cq
        /\ score' = score + U \div (K + q - p)
        /\ best' = IF best[1] = INF \/ q - p < best[2] - best[1] THEN <<p, q>> ELSE best
        /\ LET h == Tau(S, p + 1) IN p' = h[1] /\ q' = h[2]
        /\ UNCHANGED <<cp, cq, top, current>>
Finish ==
  /\ pc = "walk" /\ ~(p < INF /\ cq < INF /\ cp < To)
  /\ LET cur == IF score > Target /\ cq < INF /\ cp < To THEN Append(current, Result) ELSE current IN
     top' \in Best(top, cur, depth)
  /\ pc' = "end"
  /\ UNCHANGED <<share, done, total, cp, cq, p, q, score, best, current>> /\ Keep
Ended ==
  /\ pc = "end" /\ done' = Append(done, top)
  /\ total' \in Best(total, top, depth)
  /\ share' = share + 1 /\ pc' = "start"
  /\ UNCHANGED <<cp, cq, p, q, score, best, top, current>> /\ Keep
Next == Begin \/ Walk \/ Finish \/ Ended
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Whole == pc = "start" /\ share \notin DOMAIN bounds
\* each share ranks its own containers, and together they rank all of them
SharesRank == \A i \in 1..Len(done) : IsRanking(done[i], Share(C, bounds[i - 1], bounds[i]), S, K, U, depth)
Ranks == Whole => IsRanking(total, C, S, K, U, depth)
\* so the scores do not depend on the division, and less depth gives a prefix of more
Scores == LET M == Matching(C, S) IN
  CHOOSE f \in [1..Cardinality(M) -> {Score(c, S, K, U) : c \in M}] :
    /\ \A i, j \in DOMAIN f : i < j => f[i] >= f[j]
    /\ \A v \in {Score(c, S, K, U) : c \in M} :
         Cardinality({i \in DOMAIN f : f[i] = v}) = Cardinality({c \in M : Score(c, S, K, U) = v})
ScorePrefix == Whole => \A i \in 1..Len(total) : total[i].s = Scores[i]
Ends == <>Whole
=============================================================================
