----------------------------- MODULE CacheWalk -----------------------------
(* Behaviours of Cache, printed as the schedules that the real code is steered along. *)
EXTENDS MCCache, Json
VARIABLE sched
Note(l) == sched' = Append(sched, l)
WInit == Init /\ sched = <<>>
WNext ==
  \/ \E t \in Readers : \E f \in Asks : Ask(t, f) /\ Note(<<"ask", ToString(t), f>>)
  \/ \E t \in Readers : (Look(t) \/ Pass(t) \/ Park(t) \/ Answer(t) \/ Text(t)) /\ UNCHANGED sched
  \/ \E t \in Readers : Decode(t) /\ Note(<<"own", ToString(t)>>)
  \/ \E j \in 1..Len(jobs) : Wake(j) /\ UNCHANGED sched
  \/ \E j \in 1..Len(jobs) : (Load(j) \/ Join(j) \/ Fetch(j)) /\ Note(<<"lib", ToString(j - 1)>>)
  \/ \E n \in 1..Len(pieces) : Merge(n) /\ Note(<<"merge", "0">>)
  \/ Commit /\ Note(<<"commit", "0">>)
WSpec == WInit /\ [][WNext]_<<cvars, sched>>
Over == (\A t \in Readers : rd[t].pc = "idle" /\ rd[t].left = 0) /\ (\A j \in 1..Len(jobs) : jobs[j].st = "over")
Emit == (Over /\ merges = MaxMerges /\ commits = MaxCommits) => PrintT("SCHED " \o ToJson(sched))
=============================================================================
