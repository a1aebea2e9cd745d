-------------------------- MODULE AnnotatedTrace --------------------------
(***************************************************************************)
(* Histories of annotating a collection and of the statistics reported,    *)
(* decided by Annotated over the texts of the items and Tokens' account of *)
(* their terms.                                                            *)
(*  new    texts, stems: pairs <<word, stem>>; kind, tok, stem; what was   *)
(*         asked for: unst, idf, rsj                                       *)
(*  ann    the items <<p, q, text>> there were, the parts' lists           *)
(*  stats  what was reported about some terms, with what weights           *)
(***************************************************************************)
EXTENDS Annotated, Tokens, Json, IOUtils
INSTANCE Intervals
Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == LET k == ToString(c) IN
                IF k \in DOMAIN Table /\ Table[k][2] # <<>> THEN Table[k][2] ELSE b
VARIABLES i, bad,
          of,     \* the last "new"
          seen,   \* the items of the last run, of all runs for ranges: <<p, q, <<text, ...>>>>, one text for each part
          len     \* their length
fvars == <<i, bad, of, seen, len>>
Wrong(what, want, got) == PrintT("MISMATCH " \o ToString(<<what, "expected", want, "found", got>>)) /\ FALSE

Term(w) == IF \E k \in 2..Len(w) : Upper(w[k]) THEN w ELSE Lowered(w)
Words(text, tok) == LET c == Cut(text, tok) IN
  [k \in 1..Len(c) |-> IF tok = "utf8" THEN CHOOSE w \in c[k][3] : TRUE ELSE Term(SubSeq(text, c[k][1] + 1, c[k][1] + c[k][2]))]
New == Trace[of]
StemOf(w) == IF New.stem = "null" THEN w ELSE (CHOOSE x \in ToSet(New.stems) : x[1] = w)[2]
Frequency(text) ==
  LET w == Words(New.texts[text], New.tok)
      s == [k \in 1..Len(w) |-> StemOf(w[k])]
  IN IF New.kind = "idf" /\ New.unst THEN BothWays(w, s) ELSE Frequencies(s)

Size(x) == x[2] - x[1] + 1
Parts(e, x) == [k \in 1..Len(e.fields) |-> PartIn(x[1], x[2], ToSet(e.fields[k]))]
TextOf(pt) == IF pt = <<>> THEN 0 ELSE pt[3]
SumOver(S) == FoldSet(LAMBDA x, s : s + x, 0, S)
LengthOf(e) ==
  IF New.kind = "field"
  THEN FoldSet(LAMBDA x, s : s + FoldSeq(LAMBDA pt, u : u + (IF pt = <<>> THEN 0 ELSE Size(pt)), 0, Parts(e, x)), 0, ToSet(e.items))
  ELSE FoldSet(LAMBDA x, s : s + Size(x), 0, ToSet(e.items))
SeenOf(e) == {<<x[1], x[2], IF New.kind = "field" THEN [k \in 1..Len(e.fields) |-> TextOf(Parts(e, x)[k])] ELSE <<x[3]>>>> : x \in ToSet(e.items)}

Annotate_(e) ==
  /\ e.ok = (e.good /\ e.items # <<>>) \/ Wrong("annotating", e.good, e.ok)
  /\ IF ~e.ok THEN UNCHANGED <<seen, len>>
     ELSE IF New.kind = "tf" THEN seen' = seen \cup SeenOf(e) /\ len' = len + LengthOf(e)
     ELSE seen' = SeenOf(e) /\ len' = LengthOf(e)

Stats(e) ==
  LET n == Cardinality(seen)
      weights == IF New.kind # "field" THEN <<1>> ELSE IF e.weights = <<>> THEN [k \in 1..New.parts |-> 1] ELSE e.weights
      want == /\ n > 0 /\ (New.kind # "idf" => len > 0)
              /\ New.kind = "field" => GoodWeights(weights, New.parts)
  IN
  /\ e.ok = want \/ Wrong("statistics", want, e.ok)
  /\ e.ok =>
     LET texts == UNION {ToSet(x[3]) : x \in seen} \ {0}
         freq == [x \in texts |-> Frequency(x)]
         tfs(x) == [k \in 1..Len(x[3]) |-> IF x[3][k] = 0 THEN <<>> ELSE freq[x[3][k]]]
         L == SetToSortSeq(seen, LAMBDA a, b : a[1] < b[1])
     IN
     /\ Near(e.avgl, (len * e.s) \div n) \/ Wrong("average length", <<len, n>>, e.avgl)
     /\ (e.conts = e.wconts /\ e.ids = e.wids) \/ Wrong("containers and identifiers", <<e.wconts, e.wids>>, <<e.conts, e.ids>>)
     /\ (e.have.avgl /\ e.have.tf) \/ Wrong("having", "avgl, tf", e.have)
     /\ (e.have.idf = (New.kind = "idf" => New.idf) /\ e.have.rsj = (New.kind = "idf" => New.rsj)
         /\ e.have.unstemmed = (New.kind = "idf" /\ New.unst)) \/ Wrong("having", <<New.kind, New.unst, New.idf, New.rsj>>, e.have)
     /\ \A k \in 1..Len(e.terms) :
          LET q == e.terms[k]
              d == Cardinality({x \in seen : \E j \in DOMAIN x[3] : x[3][j] # 0 /\ q.t \in DOMAIN freq[x[3][j]]})
              all == [j \in 1..Len(L) |-> <<L[j][1], L[j][2], Weighted(tfs(L[j]), weights, q.t)>>]
              list == SelectSeq(all, LAMBDA x : x[3] > 0)
              idf == IF New.kind = "idf" /\ ~New.idf THEN e.s ELSE IdfArg(n, d, e.s)
              rsj == IF New.kind = "idf" /\ ~New.rsj THEN e.s ELSE RsjArg(n, d, e.s)
          IN
          /\ (q.walk = list /\ q.back = list) \/ Wrong(<<"items with", q.t>>, list, <<q.walk, q.back>>)
          /\ Near(q.idf, idf) \/ Wrong(<<"idf of", q.t, "items", n, "with it", d>>, idf, q.idf)
          /\ Near(q.rsj, rsj) \/ Wrong(<<"rsj of", q.t, "items", n, "with it", d>>, rsj, q.rsj)
          /\ \A c \in 1..Len(q.calls) :
               LET w == Ask(list, q.calls[c][1], q.calls[c][2]) IN
               (SubSeq(w, 1, 2) = SubSeq(q.r[c], 1, 2) /\ (w[3] = ANY \/ w[3] = q.r[c][3]))
               \/ Wrong(<<"cursor for", q.t, q.calls[c]>>, w, q.r[c])

FInit == i = 0 /\ bad = 0 /\ of = 0 /\ seen = {} /\ len = 0
FNext ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     CASE e.k = "new" -> of' = i + 1 /\ seen' = {} /\ len' = 0 /\ bad' = 0
       [] e.k = "same" -> bad' = (IF e.ok THEN 0 ELSE i + 1) /\ UNCHANGED <<of, seen, len>>
       [] e.k = "stats" -> bad' = (IF Stats(e) THEN 0 ELSE i + 1) /\ UNCHANGED <<of, seen, len>>
       [] e.k = "ann" -> UNCHANGED of /\
            (\/ Annotate_(e) /\ bad' = 0
             \/ ~ENABLED Annotate_(e) /\ UNCHANGED <<seen, len>> /\ bad' = i + 1)
FSpec == FInit /\ [][FNext]_fvars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
