------------------------------- MODULE Cache -------------------------------
(***************************************************************************)
(* Concurrent readers of one collection, down to its caches.               *)
(*                                                                         *)
(* A collection is a sequence of pieces; a piece holds a list of items per *)
(* feature, and the items it hides are the list of feature E.  An archived *)
(* piece loads a feature's list at its first use, in a thread of its own   *)
(* (or in the thread that needs it, when that one is itself loading); the  *)
(* lists of several pieces are joined at their first use, in a thread of   *)
(* their own, into a cache that all warrens started since the last commit  *)
(* share.  A reader that finds an entry being loaded sleeps on its gate.   *)
(* Text is decoded by whoever needs it, and the first to finish keeps it.  *)
(* Meanwhile pieces are merged, and transactions commit.                   *)
(*                                                                         *)
(* What must hold: every read ends, with the answer a lone reader gets,    *)
(* which depends on nothing but the transactions in the reader's view.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, TLC
CONSTANTS Readers, Reads, MaxMerges, MaxCommits, Initial, Added, Asks, Flaw
E == "E"

VARIABLES pieces,   \* the current pieces
          old,      \* pieces merged away, still in use by earlier views
          gen,      \* which shared cache warrens starting now get
          cache,    \* <<where, feature>> -> [st, val]; where: <<"top", gen>> or <<"low", piece>>
          jobs,     \* sequence of loading jobs, in order of creation
          rd,       \* what each reader is at
          merges, commits, done
cvars == <<pieces, old, gen, cache, jobs, rd, merges, commits, done>>

\* pieces are [id, archived, lists: feature -> sequence of items, chunk: text]
Ids(ps) == {ps[n].id : n \in 1..Len(ps)}
Of(ps, f) == [n \in 1..Len(ps) |-> ps[n].lists[f]]
Joined(ps, f) == FoldLeft(LAMBDA acc, l : acc \o l, <<>>, Of(ps, f))
Without(l, gone) == SelectSeq(l, LAMBDA x : ~\E n \in 1..Len(gone) : gone[n] = x)
\* the lone reader's answer
Lone(ps, f) == IF f = "text" THEN [n \in 1..Len(ps) |-> ps[n].id] ELSE Without(Joined(ps, f), Joined(ps, E))

Has(k) == k \in DOMAIN cache
Put(f, k, v) == (k :> v) @@ f
Loading == [st |-> "loading", val |-> <<>>]
Contributing(ps, f) == SelectSeq(ps, LAMBDA p : p.lists[f] # <<>>)

Idle == [pc |-> "idle", want |-> <<>>, got |-> <<>>, view |-> <<>>, gen |-> 0, gate |-> <<>>, f |-> "", left |-> Reads]
Init ==
  /\ pieces = Initial /\ old = {} /\ gen = 0 /\ cache = <<>> /\ jobs = <<>>
  /\ rd = [t \in Readers |-> Idle] /\ merges = 0 /\ commits = 0 /\ done = {}

Piece(id) == CHOOSE p \in old \cup {pieces[n] : n \in 1..Len(pieces)} : p.id = id

\* A reader starts a view and asks for a feature, or for the text.
Ask(t, f) ==
  /\ rd[t].pc = "idle" /\ rd[t].left > 0
  /\ rd' = [rd EXCEPT ![t] = [pc |-> IF f = "text" THEN "text" ELSE "look", f |-> f, got |-> <<>>, gate |-> <<>>, left |-> rd[t].left - 1,
                              want |-> IF f = "text" THEN [n \in 1..Len(pieces) |-> pieces[n].id]
                                       ELSE IF Joined(pieces, E) # <<>> THEN <<f, E>> ELSE <<f>>,
                              view |-> pieces, gen |-> gen]]
  /\ UNCHANGED <<pieces, old, gen, cache, jobs, merges, commits, done>>

\* It looks the next list up: there at once, or behind a gate that it, being
\* the first to ask, has a job open.
Got(t, l) == rd' = [rd EXCEPT ![t].got = Append(@, l), ![t].want = Tail(@), ![t].pc = "look"]
ViaCache(t, k, job) ==
  /\ rd' = [rd EXCEPT ![t].pc = "gate", ![t].gate = k]
  /\ IF Has(k) /\ Flaw # "twice" THEN UNCHANGED <<cache, jobs>>
     ELSE /\ cache' = IF Has(k) THEN cache ELSE Put(cache, k, IF Flaw = "open" THEN [Loading EXCEPT !.st = "ready"] ELSE Loading)
          /\ jobs' = Append(jobs, job)
Look(t) ==
  /\ rd[t].pc = "look" /\ rd[t].want # <<>>
  /\ LET f == rd[t].want[1] IN LET c == Contributing(rd[t].view, f) IN
     IF c = <<>> THEN Got(t, <<>>) /\ UNCHANGED <<cache, jobs>>
     ELSE IF Len(c) = 1
     THEN IF ~c[1].archived THEN Got(t, c[1].lists[f]) /\ UNCHANGED <<cache, jobs>>
          ELSE ViaCache(t, <<"low", c[1].id, f>>, [st |-> "load", k |-> <<"low", c[1].id, f>>, todo |-> <<>>, acc |-> <<>>, f |-> f])
     ELSE LET k == <<"top", rd[t].gen, f>> IN
          ViaCache(t, k, [st |-> "join", k |-> k, todo |-> [n \in 1..Len(c) |-> c[n].id], acc |-> <<>>, f |-> f])
  /\ UNCHANGED <<pieces, old, gen, merges, commits, done>>

Pass(t) ==
  /\ rd[t].pc = "gate"
  /\ IF cache[rd[t].gate].st = "ready"
     THEN Got(t, cache[rd[t].gate].val)
     ELSE rd' = [rd EXCEPT ![t].pc = "park"]
  /\ UNCHANGED <<pieces, old, gen, cache, jobs, merges, commits, done>>
\* it sleeps only if the gate is still closed, and this is decided in one step
Park(t) ==
  /\ rd[t].pc = "park"
  /\ rd' = [rd EXCEPT ![t].pc = IF cache[rd[t].gate].st = "ready" /\ Flaw # "sleep" THEN "gate" ELSE "asleep"]
  /\ UNCHANGED <<pieces, old, gen, cache, jobs, merges, commits, done>>

Answer(t) ==
  /\ rd[t].pc = "look" /\ rd[t].want = <<>>
  /\ done' = done \cup {<<rd[t].f, rd[t].view, IF Len(rd[t].got) = 2 THEN Without(rd[t].got[1], rd[t].got[2]) ELSE rd[t].got[1]>>}
  /\ rd' = [rd EXCEPT ![t] = [Idle EXCEPT !.left = rd[t].left]]
  /\ UNCHANGED <<pieces, old, gen, cache, jobs, merges, commits>>

\* Text: decode a chunk unless it is there; whoever finishes first keeps it.
Text(t) ==
  /\ rd[t].pc = "text"
  /\ IF rd[t].want = <<>>
     THEN /\ done' = done \cup {<<"text", rd[t].view, rd[t].got>>}
          /\ rd' = [rd EXCEPT ![t] = [Idle EXCEPT !.left = rd[t].left]]
     ELSE /\ UNCHANGED done
          /\ LET k == <<"chunk", rd[t].want[1], "">> IN
             IF ~Piece(rd[t].want[1]).archived \/ Has(k)
             THEN rd' = [rd EXCEPT ![t].got = Append(@, IF Has(k) THEN cache[k].val[1] ELSE rd[t].want[1]), ![t].want = Tail(@)]
             ELSE rd' = [rd EXCEPT ![t].pc = "decode"]
  /\ UNCHANGED <<pieces, old, gen, cache, jobs, merges, commits>>
Decode(t) ==
  /\ rd[t].pc = "decode"
  /\ LET k == <<"chunk", rd[t].want[1], "">> IN
     cache' = IF Has(k) THEN cache ELSE Put(cache, k, [st |-> "ready", val |-> <<rd[t].want[1]>>])
  /\ rd' = [rd EXCEPT ![t].pc = "text"]
  /\ UNCHANGED <<pieces, old, gen, jobs, merges, commits, done>>

\* Jobs.  Opening a gate and waking who sleeps on it are two steps.
Open(j, val) ==
  /\ cache' = [cache EXCEPT ![jobs[j].k] = [st |-> "ready", val |-> cache[jobs[j].k].val \o val]]
Load(j) ==
  /\ jobs[j].st = "load"
  /\ Open(j, Piece(jobs[j].k[2]).lists[jobs[j].f])
  /\ jobs' = [jobs EXCEPT ![j].st = "wake"]
  /\ UNCHANGED <<pieces, old, gen, rd, merges, commits, done>>
Take(j, l) == jobs' = [jobs EXCEPT ![j].acc = Append(@, l), ![j].todo = Tail(@), ![j].st = "join"]
Join(j) ==
  /\ jobs[j].st = "join"
  /\ IF jobs[j].todo = <<>>
     THEN /\ Open(j, FoldLeft(LAMBDA acc, l : acc \o l, <<>>, jobs[j].acc))
          /\ jobs' = [jobs EXCEPT ![j].st = "wake"]
     ELSE LET p == Piece(jobs[j].todo[1])
              k == <<"low", p.id, jobs[j].f>> IN
          IF ~p.archived THEN Take(j, p.lists[jobs[j].f]) /\ UNCHANGED cache
          ELSE IF ~Has(k) THEN cache' = Put(cache, k, Loading) /\ jobs' = [jobs EXCEPT ![j].st = "fetch"]
          ELSE /\ cache[k].st = "ready"
               /\ Take(j, cache[k].val) /\ UNCHANGED cache
  /\ UNCHANGED <<pieces, old, gen, rd, merges, commits, done>>
\* a joining job that is the first to need a piece's list loads it itself
Fetch(j) ==
  /\ jobs[j].st = "fetch"
  /\ LET p == Piece(jobs[j].todo[1])
         k == <<"low", p.id, jobs[j].f>> IN
     /\ cache' = [cache EXCEPT ![k] = [st |-> "ready", val |-> @.val \o p.lists[jobs[j].f]]]
     /\ Take(j, cache'[k].val)
     \* those asleep on it are woken
     /\ rd' = [t \in Readers |-> IF rd[t].pc = "asleep" /\ rd[t].gate = k THEN [rd[t] EXCEPT !.pc = "gate"] ELSE rd[t]]
  /\ UNCHANGED <<pieces, old, gen, merges, commits, done>>
Wake(j) ==
  /\ jobs[j].st = "wake"
  /\ rd' = [t \in Readers |-> IF rd[t].pc = "asleep" /\ rd[t].gate = jobs[j].k THEN [rd[t] EXCEPT !.pc = "gate"] ELSE rd[t]]
  /\ jobs' = [jobs EXCEPT ![j].st = "over"]
  /\ UNCHANGED <<pieces, old, gen, cache, merges, commits, done>>
Step(j) == Load(j) \/ Join(j) \/ Fetch(j) \/ Wake(j)

\* Two neighbouring pieces become one, without what they hide of each other.
Merge(n) ==
  /\ merges < MaxMerges /\ n < Len(pieces)
  /\ LET a == pieces[n]
         b == pieces[n + 1]
         two == <<a, b>>
         p == [id |-> a.id * 10 + b.id, archived |-> TRUE,
               lists |-> [f \in DOMAIN a.lists |-> IF f = E THEN Joined(two, E) ELSE Without(Joined(two, f), Joined(two, E))]] IN
     /\ pieces' = SubSeq(pieces, 1, n - 1) \o <<p>> \o SubSeq(pieces, n + 2, Len(pieces))
     /\ old' = old \cup {a, b}
  /\ merges' = merges + 1
  /\ UNCHANGED <<gen, cache, jobs, rd, commits, done>>

\* A commit adds a piece, and warrens started from now on share another cache.
Commit ==
  /\ commits < MaxCommits
  /\ pieces' = Append(pieces, Added[commits + 1])
  /\ gen' = IF Flaw = "stale" THEN gen ELSE gen + 1
  /\ commits' = commits + 1
  /\ UNCHANGED <<old, cache, jobs, rd, merges, done>>

ReaderStep(t) == Look(t) \/ Pass(t) \/ Park(t) \/ Answer(t) \/ Text(t) \/ Decode(t)
Next == \/ \E t \in Readers : ReaderStep(t) \/ \E f \in Asks : Ask(t, f)
        \/ \E j \in 1..Len(jobs) : Step(j)
        \/ \E n \in 1..Len(pieces) : Merge(n)
        \/ Commit
Spec == Init /\ [][Next]_cvars
FairSpec == Spec /\ (\A t \in Readers : WF_cvars(ReaderStep(t))) /\ WF_cvars(\E j \in 1..Len(jobs) : Step(j))

AsAlone == \A a \in done :
  a[3] = IF a[1] = "text" THEN [n \in 1..Len(a[2]) |-> a[2][n].id] ELSE Lone(a[2], a[1])
\* an entry that is ready never changes
Stays == [][\A k \in DOMAIN cache : cache[k].st = "ready" => cache'[k] = cache[k]]_cvars
Loads == \A k \in DOMAIN cache : cache[k].st = "loading" =>
           \E j \in 1..Len(jobs) : jobs[j].st # "over" /\ (jobs[j].k = k \/ (jobs[j].st = "fetch" /\ <<"low", jobs[j].todo[1], jobs[j].f>> = k))
Ends == \A t \in Readers : rd[t].pc # "idle" ~> rd[t].pc = "idle"
=============================================================================
