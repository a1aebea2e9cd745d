------------------------------ MODULE HazelMerge ------------------------------
(***************************************************************************)
(* Merging a run of adjacent archives into one, file operation by file     *)
(* operation, with a crash possible before and half-way through each.      *)
(*                                                                         *)
(* A source archive maps features to lists.  The merge appends, feature    *)
(* by feature, a list to the checkpoint `pst' and then a record to the     *)
(* checkpoint `dct'; started again, it keeps the longest prefix both       *)
(* files vouch for.  The result is written to `mrg' and linked to its      *)
(* final name; then the checkpoints go, and whoever opens the burrow next  *)
(* removes the sources the result shadows.                                 *)
(*                                                                         *)
(* What it must be: an archive under a final name is always whole; no      *)
(* source goes before the result is there; a merge that is restarted often *)
(* enough is finished, with the result of an undisturbed one.              *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

CONSTANTS Features,     \* in their order, a set of numbers
          MaxCrashes, MaxReopens
VARIABLES src,      \* the sources: each a function from some features to the length of its list (0: erased away)
          there,    \* whether the sources are still there
          dst, mrg, \* <<>> or the sequence of records in it
          pst,      \* sequence of <<feature, whole?>>: the lists, the last perhaps torn
          dct,      \* sequence of <<feature, number of lists in pst when it was written>>, the last perhaps torn
          pc, at, crashes, reopens
vars == <<src, there, dst, mrg, pst, dct, pc, at, crashes, reopens>>
Torn == -1
TornRecord == <<-1, -1>>

\* Erasures (feature 0) hide part of the lists; a list left with nothing is not written.
HasErasures == 0 \in DOMAIN src
Writes(f) == f \in DOMAIN src /\ src[f] > 0
\* a single point is recorded in the dictionary alone
Inline(f) == src[f] = 1
Result == LET l == SetToSortSeq({f \in DOMAIN src : Writes(f)}, LAMBDA a, b : a < b) IN l
ListsOf(l) == SelectSeq(l, LAMBDA f : ~Inline(f))

Init == /\ src \in UNION {[S -> 0..2] : S \in SUBSET Features}
        /\ (0 \in DOMAIN src => src[0] > 0)
        /\ there = TRUE /\ dst = <<>> /\ mrg = <<>> /\ pst = <<>> /\ dct = <<>>
        /\ pc = "idle" /\ at = 0 /\ crashes = 0 /\ reopens = 0

\* Files that do not exist are written <<>>; "empty but there" does not matter for any of them but dst.
Has(f) == f # <<>>
Complete(f) == Has(f) /\ f[1] = "archive" /\ f[2] = Result /\ f[3] = "whole"

Begin == /\ pc = "idle" /\ there /\ ~Has(dst)
         /\ pc' = "repair" /\ mrg' = <<>>
         /\ UNCHANGED <<src, there, dst, pst, dct, at, crashes, reopens>>

\* how many leading records of the dictionary the lists vouch for
Whole(s, torn) == SelectSeq(s, LAMBDA x : x # torn)
Vouched(d, p) ==
  LET ok(n) == \A k \in 1..n : d[k][2] <= Len(Whole(p, Torn)) IN
  Max({n \in 0..Len(d) : ok(n)})

Repair ==
  /\ pc = "repair"
  /\ LET d == Whole(dct, TornRecord)  n == Vouched(d, pst)
         d2 == SubSeq(d, 1, n)
         p2 == IF n = 0 THEN <<>> ELSE SubSeq(pst, 1, d2[n][2])
         bad == \/ HasErasures /\ (n = 0 \/ d2[1][1] # 0)
                \/ ~HasErasures /\ n > 0 /\ d2[1][1] = 0 IN
     /\ dct' = IF bad THEN <<>> ELSE d2
     /\ pst' = IF bad THEN <<>> ELSE p2
     /\ at' = IF bad \/ n = 0 THEN -1 ELSE d2[n][1]
  /\ pc' = "merge"
  /\ UNCHANGED <<src, there, dst, mrg, crashes, reopens>>

NextFeature == {f \in DOMAIN src : f > at}
WriteList ==
  /\ pc = "merge" /\ NextFeature # {}
  /\ LET f == Min(NextFeature) IN
     IF ~Writes(f) THEN at' = f /\ UNCHANGED <<pst, pc>>
     ELSE /\ pst' = IF Inline(f) THEN pst ELSE Append(pst, f)
          /\ pc' = "record" /\ UNCHANGED at
  /\ UNCHANGED <<src, there, dst, mrg, dct, crashes, reopens>>
WriteRecord ==
  /\ pc = "record"
  /\ LET f == Min(NextFeature) IN dct' = Append(dct, <<f, Len(pst)>>) /\ at' = f
  /\ pc' = "merge"
  /\ UNCHANGED <<src, there, dst, mrg, pst, crashes, reopens>>
Finish ==
  /\ pc = "merge" /\ NextFeature = {}
  /\ mrg' = <<"archive", [k \in 1..Len(dct) |-> dct[k][1]], "torn">> /\ pc' = "text"
  /\ UNCHANGED <<src, there, dst, pst, dct, at, crashes, reopens>>
Text == /\ pc = "text" /\ mrg' = [mrg EXCEPT ![3] = "whole"] /\ pc' = "link"
        /\ UNCHANGED <<src, there, dst, pst, dct, at, crashes, reopens>>
Link == /\ pc = "link" /\ dst' = mrg /\ pc' = "unmrg"
        /\ UNCHANGED <<src, there, mrg, pst, dct, at, crashes, reopens>>
Clean == /\ \/ pc = "unmrg" /\ mrg' = <<>> /\ pc' = "unpst" /\ UNCHANGED <<pst, dct>>
            \/ pc = "unpst" /\ pst' = <<>> /\ pc' = "undct" /\ UNCHANGED <<mrg, dct>>
            \/ pc = "undct" /\ dct' = <<>> /\ pc' = "idle" /\ UNCHANGED <<mrg, pst>>
         /\ UNCHANGED <<src, there, dst, at, crashes, reopens>>

\* Opening the burrow: with the result there, everything else goes; without it, only the unfinished result does.
Open == /\ pc = "idle" /\ reopens < MaxReopens /\ reopens' = reopens + 1
        /\ IF Has(dst) THEN mrg' = <<>> /\ pst' = <<>> /\ dct' = <<>> /\ there' = FALSE
           ELSE /\ mrg' = <<>> /\ there' = there
                /\ IF Has(pst) /\ Has(dct) THEN UNCHANGED <<pst, dct>> ELSE pst' = <<>> /\ dct' = <<>>
        /\ UNCHANGED <<src, dst, pc, at, crashes>>
\* Merging again when the result is there: nothing but the leftovers changes.
Again == /\ pc = "idle" /\ Has(dst) /\ pc' = "unmrg"
         /\ UNCHANGED <<src, there, dst, mrg, pst, dct, at, crashes, reopens>>

Crash ==
  /\ pc # "idle" /\ crashes < MaxCrashes /\ crashes' = crashes + 1 /\ pc' = "idle" /\ at' = 0
  /\ \/ UNCHANGED <<pst, dct>>
     \* half-way through what comes next
     \/ pc = "merge" /\ NextFeature # {} /\ Writes(Min(NextFeature)) /\ ~Inline(Min(NextFeature))
        /\ pst' = Append(pst, Torn) /\ UNCHANGED dct
     \/ pc = "record" /\ dct' = Append(dct, TornRecord) /\ UNCHANGED pst
  /\ UNCHANGED <<src, there, dst, mrg, reopens>>

Next == Begin \/ Repair \/ WriteList \/ WriteRecord \/ Finish \/ Text \/ Link \/ Clean \/ Open \/ Again \/ Crash
Spec == Init /\ [][Next]_vars /\ WF_vars(Begin \/ Repair \/ WriteList \/ WriteRecord \/ Finish \/ Text \/ Link \/ Clean)

WholeOrAbsent == Has(dst) => Complete(dst)
SourcesSafe == there \/ Complete(dst)
\* the checkpoint never vouches for a list that is not its feature's
Vouches == \A k \in 1..Len(dct) : dct[k] # TornRecord =>
   \/ dct[k][1] \in DOMAIN src /\ Inline(dct[k][1])
   \/ Len(pst) < dct[k][2] \/ pst[dct[k][2]] = dct[k][1]
ListsMatch == Has(dst) => \A k \in 1..Len(pst) : pst[k] = ListsOf(Result)[k]
GetsThere == <>[](Has(dst))
=============================================================================
