----------------------------- MODULE StaticTrace -----------------------------
(* Histories of a static burrow, recorded from the real code. *)
EXTENDS Static, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad
vars == <<svars, i, bad>>

Act(e) ==
  CASE e.k = "new"    -> txn' = <<>> /\ cur' = <<>> /\ view' = <<>> /\ order' = <<>> /\ hw' = 0
    [] e.k = "txn"    -> SBegin(e.w, e.t, e.ok)
    [] e.k = "app"    -> e.ok /\ e.n = Len(e.units) /\ SAppend(e.w, e.lead, e.units, e.words)
    [] e.k = "anns"   -> e.ok /\ AnnotateAll(e.w, e.l)
    [] e.k = "ready"  -> IF e.ok THEN SReady(e.w) ELSE e.disturbed /\ SNotReady(e.w)
    [] e.k = "commit" -> e.ok /\ Commit(e.w)
    [] e.k = "abort"  -> e.ok /\ SAbort(e.w)
    [] e.k = "open"   -> e.ok /\ SOpen(e.w)
    [] e.k = "recover" -> e.ok /\ Recover(e.commit)

Wrong(e, what, expected, got) == PrintT("MISMATCH " \o ToString(<<e.w, what, "expected", expected, "got", got>>)) /\ FALSE
Eqv(a, b) == a = b \/ (Len(a) = 0 /\ Len(b) = 0)
Answered(e, S) ==
  /\ \A n \in 1..Len(e.fs) :
       LET l == List(S, e.fs[n]) IN
       /\ Eqv(e.lists[n], l) \/ Wrong(e, <<"list of", e.fs[n]>>, l, e.lists[n])
       /\ CountOk(S, e.fs[n], e.counts[n], Len(e.lists[n])) \/ Wrong(e, <<"count of", e.fs[n]>>, Len(l), e.counts[n])
  /\ LET s == Stream(S) IN
     \A n \in 1..Len(e.trs) :
       \/ e.trs[n][3] = STranslate(s, e.trs[n][1], e.trs[n][2])
       \/ Wrong(e, <<"text of", e.trs[n][1], e.trs[n][2]>>, STranslate(s, e.trs[n][1], e.trs[n][2]), e.trs[n][3])
  /\ Eqv(e.range, IF Tokens(S) = 0 THEN <<>> ELSE <<0, Tokens(S) - 1>>) \/ Wrong(e, "range", Tokens(S), e.range)
  /\ e.tokens = Tokens(S) \/ Wrong(e, "tokens", Tokens(S), e.tokens)

Next ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1
  /\ LET e == Trace[i + 1] IN
     IF e.k = "obs" THEN bad' = (IF Answered(e, View(e.w)) THEN 0 ELSE i + 1) /\ UNCHANGED svars
     ELSE \/ Act(e) /\ bad' = 0
          \/ ~ENABLED Act(e) /\ UNCHANGED svars /\ bad' = i + 1
Spec0 == Init /\ i = 0 /\ bad = 0
Spec == Spec0 /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
