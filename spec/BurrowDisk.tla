----------------------------- MODULE BurrowDisk -----------------------------
(* What a burrow keeps in its directory, one file operation per step, with a crash possible between any two of them -
   also while a crash is being recovered from.  The directory is abstracted to the files that carry content:
     kitten a     a transaction that is ready          fiver a b, hazel a b   shards (b >= a: merged from a..b)
     script       the commit decision of a group       sidecars               a restartable archive merge
   Bound to the code by vf/crash.py, which opens, with the real code, what each file operation of real histories
   would leave behind, and has TLC decide the outcome against Store!Crash. *)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC

CONSTANTS Txns,     \* transactions, all of which may be started
          Crashes,  \* how many crashes at most
          Archive   \* whether shards are converted to archives, and those merged

VARIABLES files, scripts, sidecars,   \* the directory
          mode,                       \* "up", or the stage of recovery
          mem,                        \* the row of shards a running burrow works on: <<[k, a, b, c, t]>>
          st, sq,                     \* state and sequence number of each transaction
          groups,                     \* group commits going on: [ts, left]
          job,                        \* the merge going on
          crashes
vars == <<files, scripts, sidecars, mode, mem, st, sq, groups, job, crashes>>

F(k, a, b, c) == [k |-> k, a |-> a, b |-> b, c |-> c]
NoJob == [op |-> "none"]
Last(s) == s[Len(s)]
Next_ == IF mem = <<>> THEN 0 ELSE 1 + Last(mem).b
Max(S) == CHOOSE x \in S : \A y \in S : y <= x
\* sequence numbers go up while the burrow is open, also past aborted transactions
NextSeq == Max({Next_} \cup {1 + sq[t] : t \in {u \in Txns : st[u] \in {"ready", "link", "unlink"}}})

Init == /\ files = {} /\ scripts = {} /\ sidecars = {} /\ mode = "up" /\ mem = <<>>
        /\ st = [t \in Txns |-> "none"] /\ sq = [t \in Txns |-> -1]
        /\ groups = {} /\ job = NoJob /\ crashes = 0

Inside(x, y) == y.a <= x.a /\ x.b <= y.b
Overlap(x, y) == x.a <= y.b /\ y.a <= x.b
Shards(k) == {x \in files : x.k = k}

------------------------------------------------------------------------------
(* What reopening makes of the directory, were it to run undisturbed. *)
Run(fs, sc) ==  \* the commit decisions are carried out: mv -n kitten fiver; rm -f kitten
    LET m == UNION sc
        k == {x \in fs : x.k = "kitten" /\ x.a \in m}
    IN (fs \ k) \cup {F("fiver", x.a, x.b, x.c) : x \in {y \in k : ~\E z \in fs : z.k = "fiver" /\ z.a = y.a /\ z.b = y.b}}
Maximal(S) == {x \in S : ~\E y \in S : y # x /\ Inside(x, y)}
Living(fs, sc) ==
    LET g == Run(fs, sc)
        h == Maximal({x \in g : x.k = "hazel"})
        f == Maximal({x \in g : x.k = "fiver"})
    IN h \cup {x \in f : ~\E y \in h : Inside(x, y)}
Survive(fs, sc) == UNION {x.c : x \in Living(fs, sc)}

\* reopening would refuse a directory whose shards overlap without one containing the other
Refused(fs, sc) == \E x, y \in Living(fs, sc) : x # y /\ Overlap(x, y)

------------------------------------------------------------------------------
(* Transactions *)
Ready(t) == /\ mode = "up" /\ st[t] = "none"
            /\ LET n == NextSeq IN
               /\ sq' = [sq EXCEPT ![t] = n] /\ st' = [st EXCEPT ![t] = "ready"]
               /\ files' = files \cup {F("kitten", n, n, {t})}
               /\ mem' = Append(mem, [k |-> "kitten", a |-> n, b |-> n, c |-> {t}, busy |-> FALSE])
            /\ UNCHANGED <<scripts, sidecars, mode, groups, job, crashes>>
Abort(t) == /\ mode = "up" /\ st[t] = "ready"
            /\ st' = [st EXCEPT ![t] = "gone"]
            /\ files' = files \ {F("kitten", sq[t], sq[t], {t})}
            /\ mem' = SelectSeq(mem, LAMBDA x : ~(x.k = "kitten" /\ x.c = {t}))
            /\ UNCHANGED <<scripts, sidecars, mode, sq, groups, job, crashes>>
CommitCall(t) == /\ mode = "up" /\ st[t] = "ready"
                 /\ st' = [st EXCEPT ![t] = "link"]
                 /\ UNCHANGED <<files, scripts, sidecars, mode, mem, sq, groups, job, crashes>>
Link(t) == /\ mode = "up" /\ st[t] = "link"
           /\ \A g \in groups : t \in g.ts => g.left # <<>> /\ g.left[1] = t
           /\ files' = files \cup {F("fiver", sq[t], sq[t], {t})}
           /\ st' = [st EXCEPT ![t] = "unlink"]
           /\ UNCHANGED <<scripts, sidecars, mode, mem, sq, groups, job, crashes>>
Unlink(t) == /\ mode = "up" /\ st[t] = "unlink"
             /\ files' = files \ {F("kitten", sq[t], sq[t], {t})}
             /\ mem' = [i \in 1..Len(mem) |-> IF mem[i].c = {t} /\ mem[i].k = "kitten" THEN [mem[i] EXCEPT !.k = "fiver"] ELSE mem[i]]
             /\ LET g == {x \in groups : t \in x.ts} IN
                IF g = {} THEN st' = [st EXCEPT ![t] = "done"] /\ UNCHANGED groups
                ELSE /\ st' = [st EXCEPT ![t] = "linked"]
                     /\ groups' = (groups \ g) \cup {[x EXCEPT !.left = Tail(x.left)] : x \in g}
             /\ UNCHANGED <<scripts, sidecars, mode, sq, job, crashes>>
GroupCall(ts, order) ==
    /\ mode = "up" /\ Cardinality(ts) > 1 /\ \A t \in ts : st[t] = "ready"
    /\ scripts' = scripts \cup {{sq[t] : t \in ts}}
    /\ groups' = groups \cup {[ts |-> ts, left |-> order]}
    /\ st' = [t \in Txns |-> IF t \in ts THEN "link" ELSE st[t]]
    /\ UNCHANGED <<files, sidecars, mode, mem, sq, job, crashes>>
GroupDone(g) ==
    /\ mode = "up" /\ g.left = <<>>
    /\ scripts' = scripts \ {{sq[t] : t \in g.ts}}
    /\ groups' = groups \ {g}
    /\ st' = [t \in Txns |-> IF t \in g.ts THEN "done" ELSE st[t]]
    /\ UNCHANGED <<files, sidecars, mode, mem, sq, job, crashes>>

------------------------------------------------------------------------------
(* Compaction: one job at a time.  Only neighbouring committed shards are merged, and a shard that is still a
   kitten keeps its neighbours apart. *)
Mergeable(i, j, k) == /\ i <= j /\ \A n \in i..j : mem[n].k = k /\ ~mem[n].busy
Group(i, j) == UNION {mem[n].c : n \in i..j}
Start(op, i, j, k) == job' = [op |-> op, pc |-> 0, a |-> mem[i].a, b |-> mem[j].b, c |-> Group(i, j),
                              src |-> [n \in 1..(j - i + 1) |-> F(k, mem[i + n - 1].a, mem[i + n - 1].b, mem[i + n - 1].c)]]
FMerge(i, j) == mode = "up" /\ job = NoJob /\ i < j /\ Mergeable(i, j, "fiver") /\ Start("fiver", i, j, "fiver")
                /\ UNCHANGED <<files, scripts, sidecars, mode, mem, st, sq, groups, crashes>>
Convert(i) == Archive /\ mode = "up" /\ job = NoJob /\ Mergeable(i, i, "fiver") /\ Start("hazel", i, i, "fiver")
              /\ UNCHANGED <<files, scripts, sidecars, mode, mem, st, sq, groups, crashes>>
HMerge(i, j) == Archive /\ mode = "up" /\ job = NoJob /\ i < j /\ Mergeable(i, j, "hazel") /\ Start("hmerge", i, j, "hazel")
                /\ UNCHANGED <<files, scripts, sidecars, mode, mem, st, sq, groups, crashes>>
Out(j) == F(IF j.op = "fiver" THEN "fiver" ELSE "hazel", j.a, j.b, j.c)
Sides(j) == {[k |-> k, a |-> j.a, b |-> j.b] : k \in {"pst", "dct"}}
JobStep ==
    /\ mode = "up" /\ job # NoJob
    /\ \/ /\ job.op = "hmerge" /\ \E s \in Sides(job) \ sidecars : job.pc = 0 /\ sidecars' = sidecars \cup {s}
          /\ UNCHANGED <<files, mem, job>>
       \/ /\ job.pc = 0 /\ (job.op = "hmerge" => Sides(job) \subseteq sidecars)
          /\ files' = files \cup {Out(job)} /\ job' = [job EXCEPT !.pc = 1] /\ UNCHANGED <<sidecars, mem>>
       \/ /\ job.pc = 1 /\ (\E s \in Sides(job) : s \in sidecars)
          /\ \E s \in Sides(job) \cap sidecars : sidecars' = sidecars \ {s}
          /\ UNCHANGED <<files, mem, job>>
       \/ /\ job.pc = 1 /\ Sides(job) \cap sidecars = {}
          /\ mem' = LET x == SelectSeq(mem, LAMBDA m : m.b < job.a)
                        y == SelectSeq(mem, LAMBDA m : m.a > job.b)
                    IN x \o <<[k |-> Out(job).k, a |-> job.a, b |-> job.b, c |-> job.c, busy |-> FALSE]>> \o y
          /\ job' = [job EXCEPT !.pc = 2] /\ UNCHANGED <<files, sidecars>>
       \/ /\ job.pc = 2 /\ job.src # <<>>
          /\ files' = files \ {job.src[1]} /\ job' = [job EXCEPT !.src = Tail(@)] /\ UNCHANGED <<sidecars, mem>>
       \/ /\ job.pc = 2 /\ job.src = <<>> /\ job' = NoJob /\ UNCHANGED <<files, sidecars, mem>>
    /\ UNCHANGED <<scripts, mode, st, sq, groups, crashes>>

------------------------------------------------------------------------------
(* Crash and recovery *)
Crash == /\ crashes < Crashes /\ crashes' = crashes + 1
         /\ mode' = "script" /\ mem' = <<>> /\ groups' = {} /\ job' = NoJob
         /\ UNCHANGED <<files, scripts, sidecars, sq>>
         /\ st' = IF mode # "up" THEN st  \* what was decided at the first crash stays decided
                  ELSE LET s == Survive(files, scripts)
                       IN [t \in Txns |-> IF t \in s THEN "done" ELSE IF st[t] = "none" THEN "none" ELSE "gone"]
RScript ==  \* one member of one script: mv -n, then rm -f; then the script goes
    /\ mode = "script"
    /\ \/ \E sc \in scripts :
          \/ \E x \in files : /\ x.k = "kitten" /\ x.a \in sc
                              /\ IF \E z \in files : z.k = "fiver" /\ z.a = x.a /\ z.b = x.b
                                 THEN files' = files \ {x}
                                 ELSE files' = (files \ {x}) \cup {F("fiver", x.a, x.b, x.c)}
                              /\ UNCHANGED <<scripts, mode>>
          \/ /\ ~\E x \in files : x.k = "kitten" /\ x.a \in sc
             /\ scripts' = scripts \ {sc} /\ UNCHANGED <<files, mode>>
       \/ scripts = {} /\ mode' = "fivers" /\ UNCHANGED <<files, scripts>>
    /\ UNCHANGED <<sidecars, mem, st, sq, groups, job, crashes>>
RFivers ==
    /\ mode = "fivers"
    /\ LET dead == Shards("kitten") \cup (Shards("fiver") \ Maximal(Shards("fiver")))
       IN IF dead = {} THEN mode' = "hazels" /\ UNCHANGED files
          ELSE \E x \in dead : files' = files \ {x} /\ UNCHANGED mode
    /\ UNCHANGED <<scripts, sidecars, mem, st, sq, groups, job, crashes>>
RHazels ==
    /\ mode = "hazels"
    /\ LET live == Maximal(Shards("hazel"))
           dead == Shards("hazel") \ live
           stale == {s \in sidecars : \/ \E x \in live : x.a = s.a /\ x.b = s.b
                                      \/ Cardinality({u \in sidecars : u.a = s.a /\ u.b = s.b}) < 2}
       IN IF stale # {} THEN \E s \in stale : sidecars' = sidecars \ {s} /\ UNCHANGED <<files, mode>>
          ELSE IF dead # {} THEN \E x \in dead : files' = files \ {x} /\ UNCHANGED <<sidecars, mode>>
          ELSE mode' = "combine" /\ UNCHANGED <<files, sidecars>>
    /\ UNCHANGED <<scripts, mem, st, sq, groups, job, crashes>>
RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.a <= y.a IN <<x>> \o Sorted(S \ {x})
RCombine ==
    /\ mode = "combine"
    /\ LET over == {x \in Shards("fiver") : \E y \in Shards("hazel") : Inside(x, y)}
       IN IF over # {} THEN \E x \in over : files' = files \ {x} /\ UNCHANGED <<mode, mem>>
          ELSE /\ mode' = "up" /\ UNCHANGED files
               /\ mem' = LET s == Sorted(files) IN [i \in 1..Len(s) |-> [k |-> s[i].k, a |-> s[i].a, b |-> s[i].b, c |-> s[i].c, busy |-> FALSE]]
    /\ UNCHANGED <<scripts, sidecars, st, sq, groups, job, crashes>>

Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Next == \/ \E t \in Txns : Ready(t) \/ Abort(t) \/ CommitCall(t) \/ Link(t) \/ Unlink(t)
        \/ \E ts \in SUBSET Txns : Cardinality(ts) > 1 /\ \E o \in Orders(ts) : GroupCall(ts, o)
        \/ \E g \in groups : GroupDone(g)
        \/ \E i, j \in 1..Len(mem) : FMerge(i, j) \/ HMerge(i, j)
        \/ \E i \in 1..Len(mem) : Convert(i)
        \/ JobStep
        \/ Crash \/ RScript \/ RFivers \/ RHazels \/ RCombine
Spec == Init /\ [][Next]_vars

------------------------------------------------------------------------------
InProgress == {t \in Txns : st[t] \in {"link", "unlink", "linked"}}
Done == {t \in Txns : st[t] = "done"}
\* C06: whenever the process dies, what returned is there, complete, and nothing else but commits in progress
Durable == Done \subseteq Survive(files, scripts)
OnlyCommitted == Survive(files, scripts) \subseteq Done \cup InProgress
GroupAtomic == \A g \in groups : g.ts \subseteq Survive(files, scripts) \/ g.ts \cap Survive(files, scripts) = {}
\* reopening is never refused, and nothing comes twice
Openable == ~Refused(files, scripts)
Once == \A x, y \in Living(files, scripts) : x # y => x.c \cap y.c = {}
\* recovering decides as the first crash did; the running burrow is what the directory says
Settled == mode # "up" => Survive(files, scripts) = Done
Faithful == (mode = "up" /\ InProgress = {} /\ job = NoJob) =>
            UNION {mem[i].c : i \in {j \in 1..Len(mem) : mem[j].k # "kitten"}} = Survive(files, scripts)
=============================================================================
