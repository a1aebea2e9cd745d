---------------------------- MODULE IngestTrace ----------------------------
(***************************************************************************)
(* Histories of a meadow, decided by Ingest: what every append had to      *)
(* answer, what is stored after it, and what is said to have been appended.*)
(***************************************************************************)
EXTENDS Ingest, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == LET k == ToString(c) IN
                IF k \in DOMAIN Table /\ Table[k][2] # <<>> THEN Table[k][2] ELSE b
VARIABLES i, bad,
          held  \* the appends that took effect, in order
ivars == <<i, bad, held>>
Wrong(what, want, got) == PrintT("MISMATCH " \o ToString(<<what, "expected", want, "found", got>>)) /\ FALSE

(* --- appends ---------------------------------------------------------------- *)
\* Documents by number, -1: none.  A long file's lines come as numbers.
Docs(e) == IF e.long THEN e.ids
           ELSE LET l == JsonLines(e.file) IN
                [k \in 1..Len(l) |-> (CHOOSE x \in Range(e.table) : x[1] = l[k])[2]]
Append_(e) ==
  CASE ~e.readable -> <<>>
    [] e.readable /\ e.k = "jsonl" ->
         LET d == Docs(e) IN
         IF -1 \in Range(d) THEN <<>> ELSE <<[path |-> PathOf(e.name), kind |-> "jsonl", docs |-> d, rows |-> <<>>, T |-> e.T]>>
    [] e.readable /\ e.k = "tsv" ->
         <<[path |-> PathOf(e.name), kind |-> "tsv", docs |-> IF e.long THEN e.ids ELSE <<>>,
            rows |-> IF e.long THEN <<>> ELSE Rows(e.file, e.sep, e.header), T |-> e.T]>>

Did(e) ==
  CASE e.k \in {"jsonl", "tsv"} ->
         LET a == Append_(e) IN
         (e.ok = (a # <<>>) \/ Wrong(<<e.k, e.name>>, a # <<>>, e.ok)) /\ held' = held \o a
    [] e.k = "crash" ->  \* what was in progress: each took effect or did not
         LET all == [n \in 1..Len(e.pend) |-> Append_(e.pend[n])]
             took == SelectSeq([n \in 1..Len(e.pend) |-> n], LAMBDA n : e.pend[n].took) IN
         /\ (\A n \in Range(took) : all[n] # <<>>) \/ Wrong("after a crash", "nothing of a bad file", took)
         /\ held' = FoldLeft(LAMBDA a, n : a \o all[n], held, took)
    [] e.k = "new" -> held' = <<>>
    [] e.k = "same" -> e.ok /\ UNCHANGED held

(* --- what is there ------------------------------------------------------------ *)
Line(s) == IF Last(s) = 10 THEN s ELSE Append(s, 10)
Inside(L, p, q) == SelectSeq(L, LAMBDA x : x[1] >= p /\ x[2] <= q)
ById(e, x) == LET m == SelectSeq(e.tops, LAMBDA y : y[1] = x[1] /\ y[2] = x[2]) IN IF Len(m) = 1 THEN m[1][3] ELSE -9
Bag(s) == [x \in Range(s) |-> Cardinality({n \in 1..Len(s) : s[n] = x})]
Place(s, x) == CHOOSE n \in 1..Len(s) : s[n] = x
JsonShown(e, part, c) ==
  LET ids == [n \in 1..Len(part) |-> ById(e, part[n])] IN
  /\ IF c.T = 1 THEN ids = c.docs
     ELSE /\ Bag(ids) = Bag(c.docs)
          /\ Cardinality(Range(c.docs)) = Len(c.docs) =>
               InShares([n \in 1..Len(ids) |-> Place(c.docs, ids[n])], Len(ids), c.T)
     \/ Wrong(<<"records of", c.path>>, c.docs, ids)
RowsShown(e, x, c) ==
  LET got == Inside(SetToSortSeq(Range(e.tops) \cup Range(e.heads), LAMBDA a, b : a[1] < b[1]), x[1], x[2])
      from == [k \in 1..Len(c.rows) |-> x[1] + FoldLeft(LAMBDA a, r : a + r.n, 0, SubSeq(c.rows, 1, k - 1))]
      want == [k \in 1..Len(c.rows) |-> <<from[k], from[k] + c.rows[k].n - 1, c.rows[k].head, c.rows[k].text>>]
      all == [k \in 1..Len(got) |-> <<got[k][1], got[k][2], got[k] \in Range(e.heads), Core(got[k][4])>>]
      wcols == {<<y[1], from[k] + y[2], from[k] + y[2] + y[3] - 1, y[4]>> : <<k, y>> \in
                 UNION {{<<k1, y1>> : y1 \in Range(c.rows[k1].cols)} : k1 \in 1..Len(c.rows)}}
      gcols == UNION {{<<y[1], z[1], z[2], Core(z[3])>> : z \in Range(Inside(y[2], x[1], x[2]))} : y \in Range(e.cols)}
  IN /\ all = want \/ Wrong(<<"rows of", c.path>>, want, all)
     /\ gcols = {y \in wcols : \E z \in Range(e.cols) : z[1] = y[1]} \/ Wrong(<<"fields of", c.path>>, wcols, gcols)
Count(c) == IF c.kind = "jsonl" THEN Len(c.docs) ELSE IF c.rows = <<>> THEN 0 ELSE 1
RECURSIVE Consumed(_, _, _)
Consumed(e, L, cs) ==
  IF cs = <<>> THEN L = <<>> \/ Wrong("labels", <<>>, L)
  ELSE LET c == Head(cs)  n == Count(c) IN
       /\ Len(L) >= n \/ Wrong(<<"labels of", c.path>>, n, Len(L))
       /\ IF c.kind = "jsonl" THEN JsonShown(e, SubSeq(L, 1, n), c)
          ELSE n = 1 => RowsShown(e, L[1], c)
       /\ Consumed(e, SubSeq(L, n + 1, Len(L)), Tail(cs))
Chunks(path) == SelectSeq(held, LAMBDA c : c.path = path)
\* Rows of a long file come by number, each label's as ranges.
LongShown(e) ==
  LET c == Chunks(PathOf(e.name))[1]
      seq == FoldLeft(LAMBDA a, s : a \o FoldLeft(LAMBDA b, r : b \o [k \in 1..r[2] - r[1] + 1 |-> r[1] + k - 1], <<>>, s), <<>>, e.shares)
  IN /\ Len(Chunks(PathOf(e.name))) = 1
     /\ Len(e.shares) <= c.T \/ Wrong("shares", c.T, Len(e.shares))
     \* in order within a share
     /\ \A s \in Range(e.shares) : \A k \in 1..Len(s) - 1 : s[k][2] < s[k + 1][1]
     /\ (Len(seq) = Len(c.docs) /\ Range(seq) = Range(c.docs)) \/ Wrong("rows", Len(c.docs), Len(seq))

Seen(e) ==
  /\ \A n \in 1..Len(e.paths) : Consumed(e, e.paths[n][2], Chunks(e.paths[n][1]))
  \* and no more than that
  /\ LET all == FoldLeft(LAMBDA a, c : a + (IF c.kind = "jsonl" THEN Len(c.docs) ELSE Len(c.rows)), 0, held)
         got == Len(e.tops) + Len(e.heads) IN
     all = got \/ Wrong("records in all", all, got)
  \* each append left the path; the text of a transaction ends in a newline
  /\ LET want == held IN
     Bag([k \in 1..Len(want) |-> Line(want[k].path)]) = Bag([k \in 1..Len(e.labels) |-> Line(e.labels[k])])
     \/ Wrong("paths", [k \in 1..Len(want) |-> want[k].path], e.labels)
Asked(e) ==
  \A n \in 1..Len(e.l) :
    LET want == \E c \in Range(held) : c.path = PathOf(e.l[n][1]) IN
    want = e.l[n][2] \/ Wrong(<<"appended", e.l[n][1]>>, want, e.l[n][2])

ISpec0 == i = 0 /\ bad = 0 /\ held = <<>>
INext ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     CASE e.k = "seen" -> bad' = (IF Seen(e) THEN 0 ELSE i + 1) /\ UNCHANGED held
       [] e.k = "long" -> bad' = (IF LongShown(e) THEN 0 ELSE i + 1) /\ UNCHANGED held
       [] e.k = "asked" -> bad' = (IF Asked(e) THEN 0 ELSE i + 1) /\ UNCHANGED held
       [] OTHER -> \/ Did(e) /\ bad' = 0
                   \/ ~ENABLED Did(e) /\ UNCHANGED held /\ bad' = i + 1
ISpec == ISpec0 /\ [][INext]_ivars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
