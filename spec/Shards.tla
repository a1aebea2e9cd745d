------------------------------- MODULE Shards -------------------------------
(***************************************************************************)
(* How the burrow is kept: a row of shards in ready order.  A transaction  *)
(* puts a shard in the row when it is made ready, which counts only from   *)
(* its commit on; abort takes it out.  A background worker replaces a run  *)
(* of adjacent committed shards by one shard holding the innermost of      *)
(* their annotations, without those erased inside the run.  A view is the  *)
(* row as it was when the view started, without uncommitted shards; it     *)
(* merges the lists of its shards and hides what any of them erases.       *)
(*                                                                         *)
(* Checked: whatever the schedule of commits, aborts and replacements,     *)
(* every view answers exactly what Store says for its set of transactions. *)
(***************************************************************************)
EXTENDS Store

CONSTANTS N,        \* transactions 1..N, each by a writer of its own
          Size,     \* addresses 0..Size-1 may be annotated or erased
          Both,       \* whether one transaction may both annotate and erase
          Strict_     \* whether even ambiguous erasures must be decided alike (they are not)
VARIABLES row,      \* the shards, in order
          held,     \* reader -> the shards of its view, or None
          busy,     \* sets of shard ids a worker is replacing
          nextid
vars == <<svars, row, held, busy, nextid>>

Ids == 1..N
F == "f"
Intervals3 == {<<p, q>> \in (0..Size-1) \X (0..Size-1) : p <= q}

Readers == {"r"}
\* The choice of contents: every transaction may annotate one interval and erase one.
Contents == {c \in {[ann |-> a, er |-> e] : a \in {<<>>} \cup {<<x>> : x \in Intervals3},
                                     e \in {<<>>} \cup {<<x>> : x \in Intervals3}} : Both \/ c.ann = <<>> \/ c.er = <<>>}

ShardOf(t) ==
  [id |-> t, st |-> "kitten",
   list |-> [i \in 1..Len(txn'[t].anns) |-> <<txn'[t].anns[i][2], txn'[t].anns[i][3], txn'[t].anns[i][4]>>],
   ers |-> {txn'[t].ers[i] : i \in 1..Len(txn'[t].ers)}, text |-> txn'[t].units]

InitS == Init /\ row = <<>> /\ held = [r \in Readers |-> None] /\ busy = {} /\ nextid = N + 1

\* A transaction's contents do not show before it is ready, and transactions
\* are alike, so they are numbered in ready order and built in one step.
OpenReady(t) ==
  /\ t \notin DOMAIN txn /\ (t = 1 \/ t - 1 \in DOMAIN txn)
  /\ \E x \in Contents :
       txn' = Put(txn, t, [Empty EXCEPT !.st = "ready", !.base = hw, !.units = <<"w\n">>,
                             !.anns = IF x.ann = <<>> THEN <<>> ELSE <<<<F, x.ann[1][1], x.ann[1][2], t>>>>,
                             !.ers = x.er])
  /\ cur' = Put(cur, t, t) /\ order' = Append(order, t) /\ hw' = hw + 1
  /\ row' = Append(row, ShardOf(t))
  /\ UNCHANGED <<view, held, busy, nextid>>
\* As in the code, an aborted shard stays in the row, marked, until a worker drops it.
Mark(t, st) == row' = [i \in 1..Len(row) |-> IF row[i].id = t THEN [row[i] EXCEPT !.st = st] ELSE row[i]]
CommitS(t) == t \in DOMAIN txn /\ Commit(t) /\ Mark(t, "fiver") /\ UNCHANGED <<held, busy, nextid>>
AbortS(t) == t \in DOMAIN txn /\ Abort(t) /\ Mark(t, "remove") /\ UNCHANGED <<held, busy, nextid>>
StartS(r) == held[r] = None /\ StartView(r) /\ held' = [held EXCEPT ![r] = SelectSeq(row, LAMBDA s : s.st \in {"fiver", "hazel"})]
             /\ UNCHANGED <<row, busy, nextid>>
EndS(r) == held[r] # None /\ EndView(r) /\ held' = [held EXCEPT ![r] = None] /\ UNCHANGED <<row, busy, nextid>>

\* Reading a run of shards: equal intervals take the later shard's value.
Covered(x, E) == \E e \in E : e[1] <= x[1] /\ x[2] <= e[2]
MergeLists(run, E) ==
  LET all == {<<run[i].list[j][1], run[i].list[j][2]>> : <<i, j>> \in
                {<<a, b>> \in (1..Len(run)) \X (1..N) : b <= Len(run[a].list)}}
      keep == Innermost({x \in all : ~Covered(x, E)})
      val(x) == LET k == Max({i \in 1..Len(run) : \E j \in 1..Len(run[i].list) : run[i].list[j][1] = x[1] /\ run[i].list[j][2] = x[2]})
                    m == CHOOSE j \in 1..Len(run[k].list) : run[k].list[j][1] = x[1] /\ run[k].list[j][2] = x[2]
                IN run[k].list[m][3]
  IN LET s == SetToSortSeq(keep, LAMBDA x, y : x[2] < y[2]) IN [i \in 1..Len(s) |-> <<s[i][1], s[i][2], val(s[i])>>]
AllErs(run) == UNION {run[i].ers : i \in 1..Len(run)}

\* The merge of a view is by the posting merge first and the erasures after it.
ViewList(run) == LET l == MergeLists(run, {}) IN SelectSeq(l, LAMBDA x : ~Covered(x, AllErs(run)))
ViewText(run) == FoldLeft(LAMBDA acc, s : acc \o s.text, <<>>, run)

\* A worker claims a run, builds its replacement, and swaps it in.
Claim(a, b) ==
  /\ busy = {} /\ a < b /\ b <= Len(row)
  /\ \A i \in a..b : row[i].st \in {"fiver", "hazel"}
  /\ busy' = {row[i].id : i \in a..b}
  /\ row' = row /\ UNCHANGED <<svars, held, nextid>>
Swap ==
  /\ busy # {}
  /\ LET run == SelectSeq(row, LAMBDA s : s.id \in busy)
         \* what was gathered is what the shards hold: a shard never changes once committed
         new == [id |-> nextid, st |-> "fiver", list |-> MergeLists(run, AllErs(run)), ers |-> AllErs(run), text |-> ViewText(run)]
         first == CHOOSE i \in 1..Len(row) : row[i].id \in busy /\ \A j \in 1..i-1 : row[j].id \notin busy
     IN row' = SubSeq(row, 1, first - 1) \o <<new>> \o SelectSeq(SubSeq(row, first, Len(row)), LAMBDA s : s.id \notin busy)
  /\ busy' = {} /\ nextid' = nextid + 1 /\ UNCHANGED <<svars, held>>
Drop == \E i \in 1..Len(row) : row[i].st = "remove" /\ row' = SelectSeq(row, LAMBDA s : s.st # "remove")
        /\ UNCHANGED <<svars, held, busy, nextid>>

Next == \/ \E t \in Ids : OpenReady(t) \/ CommitS(t) \/ AbortS(t)
        \/ \E r \in Readers : StartS(r) \/ EndS(r)
        \/ \E a, b \in 1..N : Claim(a, b)
        \/ Swap \/ Drop
Spec == InitS /\ [][Next]_vars

\* What a row lists must be what Store lists, except where Store leaves it open.
Span(l) == {<<l[i][1], l[i][2]>> : i \in 1..Len(l)}
Answers(l, S) == l = List(S, F) \/ (~Strict_ /\ Ambiguous(S, F) /\ Span(l) \subseteq Span(List(S, F)))

\* Every view, however its shards came about, answers what Store says.
ViewsAnswer == \A r \in Readers : held[r] # None =>
  /\ Answers(ViewList(held[r]), view[r])
  /\ ViewText(held[r]) = FoldLeft(LAMBDA acc, t : acc \o txn[t].units, <<>>, InOrder(view[r]))
\* A view begun now would answer as its transactions require.
NowAnswers == LET run == SelectSeq(row, LAMBDA s : s.st \in {"fiver", "hazel"}) IN
  /\ Answers(ViewList(run), Committed)
  /\ ViewText(run) = FoldLeft(LAMBDA acc, t : acc \o txn[t].units, <<>>, InOrder(Committed))
AddressesDisjoint == Disjoint
\* The row is in ready order, and only whole runs were replaced.
InnermostOnly == \A i \in 1..Len(row) : row[i].id > N =>
  \A a, b \in 1..Len(row[i].list) : a # b => ~Strict(row[i].list[a], row[i].list[b])
\* A view never changes, and one begun later contains no less.
Steady == [][\A r \in Readers : held[r] # None /\ held'[r] # None => view'[r] = view[r] /\ held'[r] = held[r]]_vars
Lasting == [][Committed \subseteq Committed']_vars
=============================================================================
