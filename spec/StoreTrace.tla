----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Histories recorded from the real code, one event per call, accepted or  *)
(* rejected by Store.  Every event carries what the call returned.         *)
(***************************************************************************)
EXTENDS Store, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad,
  tick,   \* transaction -> <<clock before its commit was called, clock after it returned>>
  seen    \* what concurrent views contained: <<clock before start, clock after, contents, name>>
vars == <<svars, i, bad, tick, seen>>

Act(e) ==
  CASE e.k = "new"    -> txn' = <<>> /\ cur' = <<>> /\ view' = <<>> /\ order' = <<>> /\ hw' = 0
    [] e.k = "txn"    -> e.ok /\ Begin(e.w, e.t)
    [] e.k = "app"    -> e.ok /\ e.n = Len(e.units) /\ AppendText(e.w, e.lead, e.units, e.words)
    [] e.k = "anns"   -> e.ok /\ AnnotateAll(e.w, e.l)
    [] e.k = "erase"  -> e.ok /\ Erase(e.w, e.p, e.q)
    [] e.k = "ready"  -> e.ok /\ Ready(e.w, e.b)
    [] e.k = "commit" -> e.ok /\ Commit(e.w)
    [] e.k = "commitall" -> e.ok /\ CommitAll({e.ws[n] : n \in 1..Len(e.ws)})
    [] e.k = "abort"  -> e.ok /\ Abort(e.w)
    [] e.k = "start"  -> e.ok /\ StartView(e.w)
    [] e.k = "end"    -> e.ok /\ EndView(e.w)
    [] e.k = "clone"  -> e.ok /\ Clone(e.w, e.as)
    [] e.k = "compact" -> e.ok /\ Compact
    [] e.k = "crash"  -> e.ok /\ Crash({Cur(e.ws[n]) : n \in 1..Len(e.ws)}, {e.sv[n] : n \in 1..Len(e.sv)})
    [] e.k = "reopen" -> e.ok /\ Reopen(Committed)
    [] e.k = "archive" -> e.ok /\ OpenArchive(e.w, {e.ts[n] : n \in 1..Len(e.ts)})
    [] e.k = "refuse" -> ~e.ok /\ UNCHANGED svars

Wrong(e, what, expected, got) == PrintT("MISMATCH " \o ToString(<<e.w, what, "expected", expected, "got", got>>)) /\ FALSE
Spans(l) == {<<l[k][1], l[k][2]>> : k \in 1..Len(l)}
Answered(e, S) ==
  /\ \A n \in 1..Len(e.fs) :
       LET l == List(S, e.fs[n]) IN
       /\ \/ e.lists[n] = l
          \/ e.lists[n] = <<>> /\ l = <<>>
          \/ Ambiguous(S, e.fs[n]) /\ Spans(e.lists[n]) \subseteq Spans(l)
          \/ Wrong(e, <<"list of", e.fs[n]>>, l, e.lists[n])
       /\ CountOk(S, e.fs[n], e.counts[n], Len(e.lists[n])) \/ Wrong(e, <<"count of", e.fs[n]>>, Len(l), e.counts[n])
  /\ \A n \in 1..Len(e.trs) :
       \/ e.trs[n][3] = Translate(S, e.trs[n][1], e.trs[n][2])
       \/ Wrong(e, <<"text of", e.trs[n][1], e.trs[n][2]>>, Translate(S, e.trs[n][1], e.trs[n][2]), e.trs[n][3])
  /\ e.range = TextRange(S) \/ (e.range = <<>> /\ TextRange(S) = <<>>) \/ Wrong(e, "range", TextRange(S), e.range)
  /\ e.tokens = Tokens(S) \/ Wrong(e, "tokens", Tokens(S), e.tokens)

\* A view started while others commit: what it contains is read off its
\* markers, and must include what was committed before, and nothing whose
\* commit had not begun; contain whatever an earlier view contained; and
\* everything else it answers must follow from what it contains.
Marked(e) == {t \in Committed : t \notin DOMAIN tick \/ \E n \in 1..Len(e.fs) : e.fs[n] = "@" \o t /\ e.lists[n] # <<>>}
When(t) == IF t \in DOMAIN tick THEN tick[t] ELSE <<0, 0>>
CobsOk(e) ==
  LET S == Marked(e)
      must == {t \in Committed : When(t)[2] < e.sb}
      may == {t \in Committed : When(t)[1] < e.se} IN
  /\ must \subseteq S \/ Wrong(e, "committed before the view started but not in it", must, S)
  /\ S \subseteq may \/ Wrong(e, "in a view started before its commit", may, S)
  /\ \A x \in seen : /\ (x[2] < e.sb => x[3] \subseteq S) \/ Wrong(e, "no longer in a later view", x[3], S)
                     /\ (e.se < x[1] => S \subseteq x[3]) \/ Wrong(e, "no longer in a later view", S, x[3])
                     /\ (x[4] = e.v => x[3] = S) \/ Wrong(e, "a view changed", x[3], S)
  /\ Answered(e, S)

Spec0 == Init /\ i = 0 /\ bad = 0 /\ tick = <<>> /\ seen = {}
Next ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     CASE e.k = "obs" -> /\ bad' = IF Answered(e, View(e.w)) THEN 0 ELSE i + 1
                         /\ UNCHANGED <<svars, tick, seen>>
       [] e.k = "cobs" -> /\ bad' = IF CobsOk(e) THEN 0 ELSE i + 1
                          /\ seen' = seen \cup {<<e.sb, e.se, Marked(e), e.v>>}
                          /\ UNCHANGED <<svars, tick>>
       [] e.k = "round" -> tick' = <<>> /\ seen' = {} /\ bad' = 0 /\ UNCHANGED svars
       [] e.k = "tick" -> /\ tick' = Put(tick, e.t, <<e.cb, e.ce>>) /\ bad' = 0 /\ UNCHANGED <<svars, seen>>
       [] OTHER -> /\ \/ Act(e) /\ bad' = 0
                      \/ ~ENABLED Act(e) /\ UNCHANGED svars /\ bad' = i + 1
                   /\ seen' = IF e.k = "new" THEN {} ELSE seen
                   /\ tick' = IF e.k = "new" THEN <<>> ELSE tick
Spec == Spec0 /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
AllDisjoint == Disjoint \/ (PrintT("MISMATCH addresses overlap") /\ PrintT("REJECTED at " \o ToString(i)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
