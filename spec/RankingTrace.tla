---------------------------- MODULE RankingTrace ----------------------------
(***************************************************************************)
(* Trace specification for rankings made by the real code.                 *)
(*  tbl: the lists of the features; sp: how quoted phrases split           *)
(*  [k |-> "ssr", q, cont, K, U, slack, depth, from, to, r]                *)
(*  [k |-> "tier", tiers, cont, K, U, slack, depth, r, words]              *)
(*      words: the words the tiers were made from, or <<>> when given      *)
(*  [k |-> "product", terms |-> <<[w, l]>>, depth, r]                      *)
(*  [k |-> "fuse", rs, U, r]                                               *)
(***************************************************************************)
EXTENDS Ranking, QueryText, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i, bad
vars == <<i, bad>>

Denotes(e, s) == TDen(Parse(s), e.tbl, e.sp)
Valid(s) == Parse(s) # NoQuery
Say(e, x) == PrintT(<<"MISMATCH", e.k, x, "got", e.r>>) /\ FALSE

Near(a, b, slack) == a - b <= slack /\ b - a <= slack
SsrOk(e) ==
  IF ~Valid(e.q) \/ ~Valid(e.cont) \/ e.depth = 0 THEN e.r = <<>> \/ Say(e, "for no ranking")
  ELSE
    LET S == Denotes(e, e.q)
        C == Share(Denotes(e, e.cont), e.from, e.to)
        M == Matching(C, S)
        V == [c \in {<<x[1], x[2]>> : x \in M} |-> Score(c, S, e.K, e.U)] IN
    \/ (e.slack = 0 => Exact(C, S, e.K, e.U))
       /\ IF e.slack = 0 THEN IsRanking(e.r, C, S, e.K, e.U, e.depth)
          ELSE /\ Sound(e.r, C, S)
               /\ Len(e.r) = Mn(e.depth, Cardinality(M))
               /\ \A j \in 1..Len(e.r) : Near(e.r[j].s, V[ResultOf(e.r, j)], e.slack)
               /\ \A j \in 1..(Len(e.r) - 1) : e.r[j].s >= e.r[j + 1].s
               /\ e.r # <<>> => \A c \in M : Holds(Listed(e.r), c) \/ V[<<c[1], c[2]>>] <= e.r[Len(e.r)].s + e.slack
    \/ Say(e, <<"containers with their scores", V, "query", S, "depth", e.depth, "from", e.from, "to", e.to>>)

\* tiers made from words: every set of words once, no set after one of its parts
RECURSIVE Words(_)
Words(t) == IF t.op = "t" THEN {t.f} ELSE UNION {Words(t.x[j]) : j \in 1..Len(t.x)}
Parts(t) == IF t.op = "+" THEN {Words(t.x[j]) : j \in 1..Len(t.x)} ELSE {Words(t)}
Made(ts, words) ==
  LET W == {words[j] : j \in 1..Len(words)}
      P(j) == Parts(Parse(ts[j])) IN
  /\ \A j \in 1..Len(ts) : Valid(ts[j])
  /\ UNION {P(j) : j \in 1..Len(ts)} = (SUBSET W) \ {{}}
  /\ FoldFunction(LAMBDA a, b : a + b, 0, [j \in 1..Len(ts) |-> Cardinality(P(j))]) = Cardinality((SUBSET W) \ {{}})
  /\ \A a, b \in 1..Len(ts) : a < b => \A x \in P(a), y \in P(b) : ~(x \subseteq y /\ x # y)

TierOk(e) ==
  LET Ss == [j \in 1..Len(e.tiers) |-> IF Valid(e.tiers[j]) THEN Denotes(e, e.tiers[j]) ELSE <<>>] IN
  /\ e.words = <<>> \/ Made(e.tiers, e.words) \/ Say(e, <<"tiers", e.tiers>>)
  /\ IF ~Valid(e.cont) \/ e.depth = 0 THEN e.r = <<>> \/ Say(e, "for no ranking")
     ELSE LET C == Denotes(e, e.cont) IN
          \/ IsTiered(e.r, C, Ss, e.K, e.U, e.depth, e.slack)
          \/ Say(e, <<"containers", C, "tiers", Ss, "depth", e.depth>>)

Ok(e) == CASE e.k = "ssr" -> SsrOk(e)
           [] e.k = "tier" -> TierOk(e)
           [] e.k = "product" -> IsProduct(e.r, e.terms, e.depth) \/ Say(e, <<e.terms, e.depth>>)
           [] e.k = "fuse" -> IsFusion(e.r, e.rs, e.U) \/ Say(e, e.rs)

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace) /\ bad = 0
        /\ i' = i + 1
        /\ bad' = IF Ok(Trace[i + 1]) THEN 0 ELSE i + 1
Spec == Init /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
