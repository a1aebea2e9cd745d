------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* What a Cottontail burrow is to its users.                               *)
(*                                                                         *)
(* Writers build transactions out of appended text, annotations and        *)
(* erasures; making one ready gives it its place (an order among the       *)
(* transactions and a run of addresses above every earlier one); commit    *)
(* makes it visible to views started from then on; abort removes it.       *)
(* Everything a view answers is a function of the set of transactions it   *)
(* contains.  Nothing here knows about shards, files, compaction or        *)
(* caches: those must not show.                                            *)
(*                                                                         *)
(* Text is a sequence of units: a token's bytes with everything up to the  *)
(* next token.  Bytes ahead of a transaction's first token belong to it.   *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Intervals, TLC

CONSTANT None
VARIABLES
  txn,    \* txn id -> transaction
  cur,    \* warren -> its open transaction, or None
  view,   \* warren -> the set of transactions its view contains, or None
  order,  \* the transactions that became ready, in that order
  hw      \* every address at or above hw is unused
svars == <<txn, cur, view, order, hw>>

Empty == [st |-> "open", anns |-> <<>>, ers |-> <<>>, units |-> <<>>, lead |-> "", base |-> -1]

Init == txn = <<>> /\ cur = <<>> /\ view = <<>> /\ order = <<>> /\ hw = 0

Put(f, x, y) == [z \in DOMAIN f \cup {x} |-> IF z = x THEN y ELSE f[z]]
Cur(w) == IF w \in DOMAIN cur THEN cur[w] ELSE None
View(w) == IF w \in DOMAIN view THEN view[w] ELSE None
Committed == {t \in DOMAIN txn : txn[t].st = "committed"}

(* --- a writer's actions ------------------------------------------------ *)
Begin(w, t) ==
  /\ Cur(w) = None /\ t \notin DOMAIN txn
  /\ txn' = Put(txn, t, Empty) /\ cur' = Put(cur, w, t)
  /\ UNCHANGED <<view, order, hw>>

\* Where an annotation given as <<own?, n>> lands in a transaction at base b.
At(a, b) == IF a[1] = 0 THEN b + a[2] ELSE a[2]

\* Each appended piece is completed by a newline when it does not end in a separator.
LastChar(s) == SubSeq(s, Len(s), Len(s))
Completed(s) == IF s = "" \/ LastChar(s) \in {" ", "\t", "\n"} THEN s ELSE s \o "\n"

AppendText(w, lead0, units0, words) ==
  LET t == Cur(w)  x == txn[t]  n == Len(x.units)
      lead == IF units0 = <<>> THEN Completed(lead0) ELSE lead0
      units == IF units0 = <<>> THEN <<>> ELSE [units0 EXCEPT ![Len(units0)] = Completed(@)]
      \* bytes ahead of the first token of this piece follow the last one
      old == IF n = 0 THEN <<>> ELSE [x.units EXCEPT ![n] = @ \o lead]
      ahead == IF n = 0 THEN x.lead \o lead ELSE x.lead
      fresh == IF n = 0 /\ Len(units) > 0 THEN [units EXCEPT ![1] = ahead \o @] ELSE units
  IN
  /\ t # None /\ x.st = "open"
  /\ txn' = [txn EXCEPT ![t].units = old \o fresh,
                        ![t].lead = IF Len(units) > 0 THEN "" ELSE ahead,
                        ![t].anns = @ \o [i \in 1..Len(words) |-> <<words[i], <<0, n + i - 1>>, <<0, n + i - 1>>, 0>>]]
  /\ UNCHANGED <<cur, view, order, hw>>

Annotate(w, f, p, q, v) ==
  LET t == Cur(w) IN
  /\ t # None /\ txn[t].st = "open"
  /\ txn' = [txn EXCEPT ![t].anns = Append(@, <<f, p, q, v>>)]
  /\ UNCHANGED <<cur, view, order, hw>>

AnnotateAll(w, l) ==
  LET t == Cur(w) IN
  /\ t # None /\ txn[t].st = "open"
  /\ txn' = [txn EXCEPT ![t].anns = @ \o l]
  /\ UNCHANGED <<cur, view, order, hw>>

Erase(w, p, q) ==
  LET t == Cur(w) IN
  /\ t # None /\ txn[t].st = "open"
  /\ txn' = [txn EXCEPT ![t].ers = Append(@, <<p, q>>)]
  /\ UNCHANGED <<cur, view, order, hw>>

\* The text of a transaction ends with a newline.
Finished(units) ==
  IF Len(units) = 0 THEN units
  ELSE LET u == units[Len(units)] IN
       IF LastChar(u) = "\n" THEN units ELSE [units EXCEPT ![Len(units)] = @ \o "\n"]

Ready(w, b) ==
  LET t == Cur(w)  x == txn[t]  n == Len(x.units) IN
  /\ t # None /\ x.st = "open"
  /\ b = -1 \/ b >= hw      \* -1: never found out (it did not commit)
  /\ txn' = [txn EXCEPT ![t] = [st |-> "ready", base |-> b, units |-> Finished(x.units), lead |-> "",
        anns |-> [i \in 1..Len(x.anns) |->
                   <<x.anns[i][1], At(x.anns[i][2], b), At(x.anns[i][3], b), x.anns[i][4]>>],
        ers |-> [i \in 1..Len(x.ers) |-> <<At(x.ers[i][1], b), At(x.ers[i][2], b)>>]]]
  /\ order' = order \o <<t>>
  /\ hw' = IF b = -1 \/ n = 0 THEN hw ELSE b + n
  /\ UNCHANGED <<cur, view>>

Commit(w) ==
  LET t == Cur(w) IN
  /\ t # None /\ txn[t].st = "ready"
  /\ txn' = [txn EXCEPT ![t].st = "committed"] /\ cur' = Put(cur, w, None)
  /\ UNCHANGED <<view, order, hw>>

\* A group commit, once it has returned.
CommitAll(ws) ==
  /\ \A w \in ws : Cur(w) # None /\ txn[Cur(w)].st = "ready"
  /\ txn' = [t \in DOMAIN txn |-> IF \E w \in ws : Cur(w) = t THEN [txn[t] EXCEPT !.st = "committed"] ELSE txn[t]]
  /\ cur' = [w \in DOMAIN cur |-> IF w \in ws THEN None ELSE cur[w]]
  /\ UNCHANGED <<view, order, hw>>

Abort(w) ==
  LET t == Cur(w) IN
  /\ t # None
  /\ txn' = [txn EXCEPT ![t].st = "aborted"] /\ cur' = Put(cur, w, None)
  /\ UNCHANGED <<view, order, hw>>

(* --- a reader's actions ------------------------------------------------ *)
StartView(w) == view' = Put(view, w, Committed) /\ UNCHANGED <<txn, cur, order, hw>>
EndView(w) == view' = Put(view, w, None) /\ UNCHANGED <<txn, cur, order, hw>>
Clone(w, as) == view' = Put(view, as, View(w)) /\ cur' = Put(cur, as, None) /\ UNCHANGED <<txn, order, hw>>

\* A warren on one archive of the burrow: it shows the transactions the archive holds.
OpenArchive(w, S) == S \subseteq Committed /\ view' = Put(view, w, S) /\ UNCHANGED <<txn, cur, order, hw>>

(* --- what must not show ------------------------------------------------ *)
Compact == UNCHANGED svars

\* All processes go away (by choice or by a crash) and the burrow is opened
\* again: what was committed is there, nothing else is.
Reopen(survivors) ==
  /\ Committed \subseteq survivors
  /\ txn' = [t \in DOMAIN txn |-> IF t \in survivors THEN [txn[t] EXCEPT !.st = "committed"]
                                  ELSE [txn[t] EXCEPT !.st = "aborted", !.base = -1]]  \* may be used again
  /\ cur' = [w \in DOMAIN cur |-> None] /\ view' = [w \in DOMAIN view |-> None]
  /\ hw' = Max({0} \cup {txn[t].base + Len(txn[t].units) : t \in {s \in survivors : Len(txn[s].units) > 0}})
  /\ UNCHANGED order

\* The same, while the commits of some transactions were in progress: all of
\* a group survive or none.
Crash(inflight, survivors) ==
  /\ survivors \in {{}, inflight}
  /\ Reopen(Committed \cup survivors)

(* --- what a set S of transactions answers ------------------------------ *)
InOrder(S) == SelectSeq(order, LAMBDA t : t \in S)
Given(S, f) ==    \* every annotation of f, oldest first
  FoldLeft(LAMBDA acc, t : acc \o SelectSeq(txn[t].anns, LAMBDA a : a[1] = f /\ a[2] <= a[3]), <<>>, InOrder(S))
Erasures(S) == UNION {{txn[t].ers[i] : i \in 1..Len(txn[t].ers)} : t \in S}
Erased(x, E) == \E e \in E : e[1] <= x[1] /\ x[2] <= e[2]

\* The innermost of the annotations that are not erased, each with its latest
\* value.  In order of end (then inner first, then latest first), an interval
\* is listed if it starts after everything listed before it.
List(S, f) ==
  LET g == Given(S, f)  E == Erasures(S)
      k == {i \in 1..Len(g) : ~Erased(<<g[i][2], g[i][3]>>, E)}
      before(i, j) == \/ g[i][3] < g[j][3]
                      \/ g[i][3] = g[j][3] /\ g[i][2] > g[j][2]
                      \/ g[i][3] = g[j][3] /\ g[i][2] = g[j][2] /\ i > j
      add(acc, i) == IF acc = <<>> \/ acc[Len(acc)][1] < g[i][2]
                     THEN Append(acc, <<g[i][2], g[i][3], g[i][4]>>) ELSE acc
  IN FoldLeft(add, <<>>, SetToSortSeq(k, before))

\* Whether what is listed depends on what an erasure hides: an erased
\* annotation inside one of the same feature that is not erased.
Ambiguous(S, f) ==
  LET g == Given(S, f)  E == Erasures(S)
      I == {<<g[i][2], g[i][3]>> : i \in 1..Len(g)} IN
  \E x, y \in I : Strict(x, y) /\ Erased(x, E) /\ ~Erased(y, E)

\* A count may include annotations the list leaves out, never fewer.
CountOk(S, f, n, len) ==
  /\ n >= len
  /\ n <= Len(Given(S, f))
Translate(S, p, q) ==
  FoldLeft(LAMBDA acc, t :
      LET x == txn[t]  n == Len(x.units)
          a == Max({p - x.base + 1, 1})  b == Min({q - x.base + 1, n}) IN
      IF a > b THEN acc ELSE acc \o FoldLeft(LAMBDA s, u : s \o u, "", SubSeq(x.units, a, b)), "", InOrder(S))
WithText(S) == {t \in S : Len(txn[t].units) > 0}
Tokens(S) == FoldLeft(LAMBDA n, t : n + Len(txn[t].units), 0, InOrder(S))
TextRange(S) == IF WithText(S) = {} THEN <<>>
                ELSE <<Min({txn[t].base : t \in WithText(S)}),
                       Max({txn[t].base + Len(txn[t].units) - 1 : t \in WithText(S)})>>

(* --- properties --------------------------------------------------------- *)
Disjoint == \A s, t \in DOMAIN txn : s # t /\ txn[s].base >= 0 /\ txn[t].base >= 0 =>
   \/ txn[s].base + Len(txn[s].units) <= txn[t].base
   \/ txn[t].base + Len(txn[t].units) <= txn[s].base
=============================================================================
