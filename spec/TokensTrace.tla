---------------------------- MODULE TokensTrace ----------------------------
(* Texts, with what the code's tokenizers say about them: e.s bytes, e.kind, e.toks <<address, offset, length, text>>,
   e.split texts, e.skips[n + 1] where skipping n tokens ends. *)
EXTENDS Tokens, Json, IOUtils, SequencesExt
Trace == ndJsonDeserialize(IOEnv.TRACE)
\* code points that are in tokens: cp -> <<class, fold>> where <<>> folds to itself
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == LET k == ToString(c) IN IF k \in DOMAIN Table /\ Table[k][2] # <<>> THEN Table[k][2] ELSE b
VARIABLES i, bad
Wrong(what, e, cut) == PrintT("MISMATCH " \o what \o ToString(<<"expected", cut>>)) /\ FALSE
Good(e) ==
  LET cut == Cut(e.s, e.kind)
      \* the reported tokens of each address
      at(a) == SelectSeq(e.toks, LAMBDA t : t[1] = a) IN
  /\ (Len(e.toks) = FoldLeft(LAMBDA n, t : n + Cardinality(t[3]), 0, cut) /\
      \A k \in 1..Len(e.toks) : e.toks[k][1] = IF k = 1 THEN 0
          ELSE IF at(e.toks[k][1])[1] = e.toks[k] THEN e.toks[k - 1][1] + 1 ELSE e.toks[k - 1][1])
     \/ Wrong("addresses", e, cut)
  /\ \A a \in 1..Len(cut) :
       LET l == at(a - 1) IN
       \/ /\ Len(l) = Cardinality(cut[a][3])
          /\ {l[k][4] : k \in 1..Len(l)} = cut[a][3]
          /\ \A k \in 1..Len(l) : l[k][2] = cut[a][1] /\ l[k][3] = cut[a][2]
       \/ Wrong("token " \o ToString(a), e, cut)
  /\ (Len(e.split) = Len(cut) /\ \A a \in 1..Len(cut) : e.split[a] \in cut[a][3]) \/ Wrong("split", e, cut)
  /\ (\A n \in 0..Len(e.skips) - 1 : e.skips[n + 1] = SkipTo(e.s, cut, n)) \/ Wrong("skip", e, cut)

Init == i = 0 /\ bad = 0
Next == i < Len(Trace) /\ bad = 0 /\ i' = i + 1 /\ bad' = IF Good(Trace[i + 1]) THEN 0 ELSE i + 1
Spec == Init /\ [][Next]_<<i, bad>>
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
