------------------------------ MODULE MCArray ------------------------------
(***************************************************************************)
(* The cursor over a stored list: one remembered position, shared by all   *)
(* questions, from which each question gallops to its answer.  Checked for *)
(* every strictly increasing array over 1..M, every remembered position a  *)
(* history can leave, and every key: the answer never depends on history.  *)
(***************************************************************************)
EXTENDS Intervals, TLC
CONSTANT M
VARIABLES a, c, ans, key, qn    \* array, remembered index, last answer and question

RECURSIVE Up(_, _, _), Down(_, _, _), BinLow(_, _, _), UpE(_, _, _), DownE(_, _, _), BinLowE(_, _, _)
n == Len(a)
\* gallop upwards from lo while elements are below k (hop doubles)
Up(lo, hop, k) == IF lo + hop <= n /\ a[lo + hop] < k THEN Up(lo, hop * 2, k) ELSE hop
Down(hi, hop, k) == IF hi - hop >= 1 /\ a[hi - hop] >= k THEN Down(hi, hop * 2, k) ELSE hop
UpE(lo, hop, k) == IF lo + hop <= n /\ a[lo + hop] <= k THEN UpE(lo, hop * 2, k) ELSE hop
DownE(hi, hop, k) == IF hi - hop >= 1 /\ a[hi - hop] > k THEN DownE(hi, hop * 2, k) ELSE hop
BinLow(lo, hi, k) == IF hi - lo <= 1 THEN hi     \* a[lo] < k <= a[hi]
  ELSE LET m == lo + (hi - lo) \div 2 IN IF a[m] < k THEN BinLow(m, hi, k) ELSE BinLow(lo, m, k)
BinLowE(lo, hi, k) == IF hi - lo <= 1 THEN lo    \* a[lo] <= k < a[hi]
  ELSE LET m == lo + (hi - lo) \div 2 IN IF a[m] <= k THEN BinLowE(m, hi, k) ELSE BinLowE(lo, m, k)

\* <<answer, new remembered index>> ; answers are elements or markers
Hop(k) ==
  IF a[c] < k THEN
    IF a[n] < k THEN <<INF, c>>
    ELSE LET h == Up(c, 1, k)  hi == IF c + h > n THEN n ELSE c + h  r == BinLow(c, hi, k) IN <<a[r], r>>
  ELSE IF a[c] > k THEN
    IF a[1] >= k THEN (IF k = -INF THEN <<-INF, c>> ELSE <<a[1], 1>>)
    ELSE LET h == Down(c, 1, k)  lo == IF h >= c THEN 1 ELSE c - h  r == BinLow(lo, c, k) IN <<a[r], r>>
  ELSE <<a[c], c>>
Poh(k) ==
  IF a[c] > k THEN
    IF a[1] > k THEN <<-INF, c>>
    ELSE LET h == DownE(c, 1, k)  lo == IF h >= c THEN 1 ELSE c - h  r == BinLowE(lo, c, k) IN <<a[r], r>>
  ELSE IF a[c] < k THEN
    IF a[n] <= k THEN (IF k = INF THEN <<INF, c>> ELSE <<a[n], n>>)
    ELSE LET h == UpE(c, 1, k)  hi == IF c + h > n THEN n ELSE c + h  r == BinLowE(c, hi, k) IN <<a[r], r>>
  ELSE <<a[c], c>>

Arrays == {SetToSortSeq(S, LAMBDA x, y : x < y) : S \in (SUBSET (1..M)) \ {{}}}
Keys == {-INF, 0, INF} \cup (1..(M + 1))
Init == a \in Arrays /\ c = 1 /\ ans = -INF /\ key = -INF /\ qn = "hop"
Next == \E k \in Keys :
   \/ /\ qn' = "hop" /\ key' = k /\ ans' = Hop(k)[1] /\ c' = Hop(k)[2] /\ UNCHANGED a
   \/ /\ qn' = "poh" /\ key' = k /\ ans' = Poh(k)[1] /\ c' = Poh(k)[2] /\ UNCHANGED a
Spec == Init /\ [][Next]_<<a, c, ans, key, qn>>
Pts == [j \in 1..n |-> <<a[j], a[j], 0>>]
Right == /\ c \in 1..n
         /\ qn = "hop" => ans = Tau(Pts, key)[1]
         /\ qn = "poh" => ans = Ohr(Pts, key)[1]
         /\ ans \notin {INF, -INF} => a[c] = ans
=============================================================================
