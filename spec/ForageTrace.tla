---------------------------- MODULE ForageTrace ----------------------------
(***************************************************************************)
(* Histories of foraging and of the statistics reported, decided by Forage *)
(* over the texts of the items and Tokens' account of their terms.         *)
(*  new    texts: what the items of the history hold; stems: per stemmer,  *)
(*         the pairs <<word, stem>>; tags: per tag its tokenizer, stemmer  *)
(*  forage items <<p, q, text>>, whether labelled, whether it had to work  *)
(*  stats  what was reported about some terms                              *)
(*  told   a description written and read back                             *)
(***************************************************************************)
EXTENDS Forage, Tokens, Json, IOUtils
INSTANCE Intervals
Trace == ndJsonDeserialize(IOEnv.TRACE)
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == LET k == ToString(c) IN
                IF k \in DOMAIN Table /\ Table[k][2] # <<>> THEN Table[k][2] ELSE b
VARIABLES i, bad,
          of,       \* the last "new"
          counted,  \* per tag: the items <<p, q, text>> of committed transactions
          labelled  \* the tags with a description
fvars == <<i, bad, of, counted, labelled>>
Wrong(what, want, got) == PrintT("MISMATCH " \o ToString(<<what, "expected", want, "found", got>>)) /\ FALSE

\* A word with capitals beyond its first letter is a term of its own, as it is written.
Term(w) == IF \E k \in 2..Len(w) : Upper(w[k]) THEN w ELSE Lowered(w)
Words(text, tok) == LET c == Cut(text, tok) IN
  [k \in 1..Len(c) |-> IF tok = "utf8" THEN CHOOSE w \in c[k][3] : TRUE ELSE Term(SubSeq(text, c[k][1] + 1, c[k][1] + c[k][2]))]
StemOf(n, w) == IF n = "null" THEN w ELSE (CHOOSE x \in ToSet(Trace[of].stems) : x[1] = w)[2]
Terms(text, t) == LET w == Words(text, t.tok) IN [k \in 1..Len(w) |-> StemOf(t.stem, w[k])]
TagOf(tag) == CHOOSE t \in ToSet(Trace[of].tags) : t.tag = tag
CountedIn(tag) == IF tag \in DOMAIN counted THEN counted[tag] ELSE {}

Forage_(e) ==
  /\ e.ok = e.must \/ Wrong(<<"foraging", e.tag>>, e.must, e.ok)
  /\ IF ~e.ok THEN UNCHANGED <<counted, labelled>>
     ELSE /\ counted' = (e.tag :> (CountedIn(e.tag) \cup ToSet(e.items))) @@ counted
          /\ labelled' = IF e.label THEN labelled \cup {e.tag} ELSE labelled

Stats(e) ==
  LET C == CountedIn(e.tag)
      n == Cardinality(C)
      len == FoldSet(LAMBDA x, s : s + x[2] - x[1] + 1, 0, C)
      want == e.tag \in labelled /\ n > 0
  IN
  /\ e.ok = want \/ Wrong(<<"statistics", e.tag>>, want, e.ok)
  /\ e.ok =>
     LET t == TagOf(e.tag)
         texts == {x[3] : x \in C}
         tf == [x \in texts |-> Frequencies(Terms(Trace[of].texts[x], t))]
         L == SetToSortSeq(C, LAMBDA a, b : a[1] < b[1])
     IN
     /\ Near(e.avgl, (len * e.s) \div n) \/ Wrong(<<"average length", e.tag>>, <<len, n>>, e.avgl)
     /\ (e.conts = e.wconts /\ e.ids = e.wids) \/ Wrong("containers and identifiers", <<e.wconts, e.wids>>, <<e.conts, e.ids>>)
     /\ \A k \in 1..Len(e.terms) :
          LET q == e.terms[k]
              has == {x \in texts : q.t \in DOMAIN tf[x]}
              sub == SelectSeq(L, LAMBDA x : x[3] \in has)
              list == [j \in 1..Len(sub) |-> <<sub[j][1], sub[j][2], tf[sub[j][3]][q.t]>>]
              d == Len(list)
          IN
          /\ (q.walk = list /\ q.back = list) \/ Wrong(<<"items with", q.t, "under", e.tag>>, list, <<q.walk, q.back>>)
          /\ Near(q.idf, IdfArg(n, d, e.s)) \/ Wrong(<<"idf of", q.t, "items", n, "with it", d>>, IdfArg(n, d, e.s), q.idf)
          /\ Near(q.rsj, RsjArg(n, d, e.s)) \/ Wrong(<<"rsj of", q.t, "items", n, "with it", d>>, RsjArg(n, d, e.s), q.rsj)
          /\ \A c \in 1..Len(q.calls) :
               LET w == Ask(list, q.calls[c][1], q.calls[c][2]) IN
               (SubSeq(w, 1, 2) = SubSeq(q.r[c], 1, 2) /\ (w[3] = ANY \/ w[3] = q.r[c][3]))
               \/ Wrong(<<"cursor for", q.t, q.calls[c]>>, w, q.r[c])
Told(e) == (e.ok /\ e.valid /\ e.back = e.said) \/ Wrong("description", e.said, e.back)

FInit == i = 0 /\ bad = 0 /\ of = 0 /\ counted = <<>> /\ labelled = {}
FNext ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     CASE e.k = "new" -> of' = i + 1 /\ counted' = <<>> /\ labelled' = {} /\ bad' = 0
       [] e.k = "stats" -> bad' = (IF Stats(e) THEN 0 ELSE i + 1) /\ UNCHANGED <<of, counted, labelled>>
       [] e.k = "told" -> bad' = (IF Told(e) THEN 0 ELSE i + 1) /\ UNCHANGED <<of, counted, labelled>>
       [] e.k = "same" -> bad' = (IF e.ok THEN 0 ELSE i + 1) /\ UNCHANGED <<of, counted, labelled>>
       [] e.k = "forage" -> UNCHANGED of /\
            (\/ Forage_(e) /\ bad' = 0
             \/ ~ENABLED Forage_(e) /\ UNCHANGED <<counted, labelled>> /\ bad' = i + 1)
FSpec == FInit /\ [][FNext]_fvars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
