------------------------------ MODULE Ranking ------------------------------
(***************************************************************************)
(* What a ranking by shortest substrings is.                               *)
(*                                                                         *)
(* C is a GC-list of containers that do not overlap and S the GC-list of   *)
(* the solutions of a query.  A container's score is the sum, over the     *)
(* solutions inside it, of 1/(K + (length - 1)).  Scores are written in    *)
(* units of 1/U, where U is divisible by every denominator that occurs.    *)
(*                                                                         *)
(* A ranking is a sequence of results [p, q, cp, cq, s].                   *)
(***************************************************************************)
EXTENDS GCL, Functions

Within(c, S) == {s \in Rng(S) : Inside(s, c)}
Matching(C, S) == {c \in Rng(C) : Within(c, S) # {}}
SumOf(T, f(_)) == FoldSet(LAMBDA x, acc : acc + f(x), 0, T)
Score(c, S, K, U) == SumOf(Within(c, S), LAMBDA s : U \div (K + s[2] - s[1]))
\* U suits the solutions that count
Exact(C, S, K, U) == \A c \in Rng(C) : \A s \in Within(c, S) : U % (K + s[2] - s[1]) = 0

Shortest(c, S) == {s \in Within(c, S) : \A t \in Within(c, S) : s[2] - s[1] <= t[2] - t[1]}
Least(S) == Min(S)
ResultOf(R, j) == <<R[j].cp, R[j].cq>>
Listed(R) == {ResultOf(R, j) : j \in 1..Len(R)}
Holds(X, r) == \E x \in X : x[1] = r[1] /\ x[2] = r[2]

\* every result names a matching container, once, with a best passage of it
Sound(R, C, S) ==
  /\ \A j \in 1..Len(R) : \E c \in Matching(C, S) :
       /\ c[1] = R[j].cp /\ c[2] = R[j].cq
       /\ Holds(Shortest(c, S), <<R[j].p, R[j].q>>)
  /\ Cardinality(Listed(R)) = Len(R)

\* R is a ranking to the given depth
IsRanking(R, C, S, K, U, depth) ==
  /\ Sound(R, C, S)
  /\ Len(R) = Mn(depth, Cardinality(Matching(C, S)))
  /\ \A j \in 1..Len(R) : R[j].s = Score(ResultOf(R, j), S, K, U)
  /\ \A j \in 1..(Len(R) - 1) : R[j].s >= R[j + 1].s
  /\ R # <<>> => \A c \in Matching(C, S) :
       Holds(Listed(R), c) \/ Score(c, S, K, U) <= R[Len(R)].s

\* the part of the containers that one share of the work sees
Share(C, from, to) == SelectSeq(C, LAMBDA c : c[1] >= from /\ c[1] < to)

(***************************************************************************)
(* Tiers: Ss is the sequence of the tiers' solutions.                      *)
(***************************************************************************)
TierOf(c, Ss) == Least({i \in 1..Len(Ss) : Within(c, Ss[i]) # {}})
AllMatching(C, Ss) == UNION {Matching(C, Ss[i]) : i \in 1..Len(Ss)}
\* slack: scores this close may come in either order (0 when U is exact)
IsTiered(R, C, Ss, K, U, depth, slack) ==
  /\ Len(R) = Mn(depth, Cardinality(AllMatching(C, Ss)))
  /\ Cardinality(Listed(R)) = Len(R)
  /\ \A j \in 1..Len(R) : \E c \in AllMatching(C, Ss) :
       /\ c[1] = R[j].cp /\ c[2] = R[j].cq
       /\ Holds(Shortest(c, Ss[TierOf(c, Ss)]), <<R[j].p, R[j].q>>)
  /\ LET T(c) == TierOf(c, Ss)
         V(c) == Score(c, Ss[T(c)], K, U)
         NoLater(a, b) == T(a) < T(b) \/ (T(a) = T(b) /\ V(a) >= V(b) - slack) IN
     /\ \A j \in 1..(Len(R) - 1) : NoLater(ResultOf(R, j), ResultOf(R, j + 1))
     /\ R # <<>> => \A c \in AllMatching(C, Ss) :
          Holds(Listed(R), c) \/ NoLater(ResultOf(R, Len(R)), c)
  /\ \A j \in 1..(Len(R) - 1) : R[j].s > R[j + 1].s

(***************************************************************************)
(* Ranking by products: items are places where some term has a value;      *)
(* an item's score is the sum of weight times value.                       *)
(***************************************************************************)
Places(terms) == UNION {{x[1] : x \in Rng(terms[i].l)} : i \in 1..Len(terms)}
Product(p, terms) ==
  SumOf(1..Len(terms), LAMBDA i : SumOf({x \in Rng(terms[i].l) : x[1] = p}, LAMBDA x : terms[i].w * x[3]))
IsProduct(R, terms, depth) ==
  LET P == {p \in Places(terms) : Product(p, terms) > 0} IN
  /\ Len(R) = Mn(depth, Cardinality(P))
  /\ Cardinality({R[j].p : j \in 1..Len(R)}) = Len(R)
  /\ \A j \in 1..Len(R) : R[j].p \in P /\ R[j].s = Product(R[j].p, terms)
       /\ \E i \in 1..Len(terms) : Holds(Rng(terms[i].l), <<R[j].p, R[j].q>>)
  /\ \A j \in 1..(Len(R) - 1) : R[j].s >= R[j + 1].s
  /\ R # <<>> => \A p \in P : p \in {R[j].p : j \in 1..Len(R)} \/ Product(p, terms) <= R[Len(R)].s

(***************************************************************************)
(* Fusion of rankings by reciprocal rank, in units of 1/U.                 *)
(***************************************************************************)
Fused(p, Rs, U) ==
  SumOf({ij \in (1..Len(Rs)) \X (1..Max({0} \cup {Len(Rs[i]) : i \in 1..Len(Rs)})) :
           ij[2] <= Len(Rs[ij[1]]) /\ Rs[ij[1]][ij[2]].p = p},
        LAMBDA ij : U \div (60 + ij[2]))
IsFusion(R, Rs, U) ==
  LET P == UNION {{Rs[i][j].p : j \in 1..Len(Rs[i])} : i \in 1..Len(Rs)} IN
  /\ {R[j].p : j \in 1..Len(R)} = P /\ Len(R) = Cardinality(P)
  /\ \A j \in 1..Len(R) : R[j].s = Fused(R[j].p, Rs, U)
  /\ \A j \in 1..(Len(R) - 1) : R[j].s >= R[j + 1].s
=============================================================================
