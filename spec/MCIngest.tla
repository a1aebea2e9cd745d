------------------------------ MODULE MCIngest ------------------------------
(***************************************************************************)
(* Appending one file of lines: every file of up to MaxLines lines, good   *)
(* or bad, or that cannot be read to its end, every number of workers up   *)
(* to MaxWorkers, every interleaving, and a crash at any time.             *)
(***************************************************************************)
EXTENDS Ingest
CONSTANTS MaxLines, MaxWorkers
VARIABLES
  lines,    \* 1..n: whether each is good
  cut,      \* whether reading fails after the last line
  T, split, \* workers; whether each has a share fixed beforehand
  at,       \* lines taken from the reader
  kept,     \* what each worker has in its transaction
  st,       \* of each worker: "run", "ready", "failed", "left"
  hand,     \* the line a worker has taken and not yet kept
  stop, failed,
  ready,    \* workers in the order their transactions were made ready
  phase,    \* "start", "work", "commit", "done", "refused", "crashed"
  stored    \* what is visible: <<>> or the workers' lines; and the path
vars == <<lines, cut, T, split, at, kept, st, hand, stop, failed, ready, phase, stored>>
W == 1..T
N == Len(lines)

Init ==
  /\ \E n \in 0..MaxLines : lines \in [1..n -> BOOLEAN]
  /\ cut \in BOOLEAN /\ T \in 1..MaxWorkers /\ split \in BOOLEAN
  /\ at = 0 /\ kept = [w \in 1..T |-> <<>>] /\ st = [w \in 1..T |-> "run"] /\ hand = [w \in 1..T |-> 0]
  /\ stop = FALSE /\ failed = FALSE /\ ready = <<>> /\ phase = "work" /\ stored = [path |-> FALSE, l |-> <<>>]
  \* with fixed shares the file is read beforehand, and any line is good
  /\ split => ~cut /\ \A k \in 1..Len(lines) : lines[k]

First(w) == (N * (w - 1)) \div T
Past(w) == (N * w) \div T
Take(w) ==
  /\ phase = "work" /\ st[w] = "run" /\ hand[w] = 0
  /\ IF split THEN
       LET k == First(w) + Len(kept[w]) + 1 IN
       IF k > Past(w)
       THEN st' = [st EXCEPT ![w] = "end"] /\ UNCHANGED <<at, hand, stop, failed>>
       ELSE hand' = [hand EXCEPT ![w] = k] /\ UNCHANGED <<at, st, stop, failed>>
     ELSE IF stop THEN st' = [st EXCEPT ![w] = "end"] /\ UNCHANGED <<at, hand, stop, failed>>
     ELSE IF at < N THEN at' = at + 1 /\ hand' = [hand EXCEPT ![w] = at + 1] /\ UNCHANGED <<st, stop, failed>>
     ELSE /\ stop' = TRUE /\ failed' = (failed \/ cut)
          /\ st' = [st EXCEPT ![w] = IF cut THEN "left" ELSE "end"] /\ UNCHANGED <<at, hand>>
  /\ UNCHANGED <<lines, cut, T, split, kept, ready, phase, stored>>
Keep(w) ==
  /\ phase = "work" /\ st[w] = "run" /\ hand[w] > 0
  /\ IF lines[hand[w]] THEN kept' = [kept EXCEPT ![w] = Append(@, hand[w])] /\ UNCHANGED <<st, stop, failed>>
     ELSE st' = [st EXCEPT ![w] = "left"] /\ stop' = TRUE /\ failed' = TRUE /\ UNCHANGED kept
  /\ hand' = [hand EXCEPT ![w] = 0]
  /\ UNCHANGED <<lines, cut, T, split, at, ready, phase, stored>>
Ready(w) ==
  /\ phase = "work" /\ st[w] = "end"
  /\ st' = [st EXCEPT ![w] = "ready"] /\ ready' = Append(ready, w)
  /\ UNCHANGED <<lines, cut, T, split, at, kept, hand, stop, failed, phase, stored>>
Finish ==
  /\ phase = "work" /\ \A w \in W : st[w] \in {"ready", "left"}
  /\ IF failed THEN phase' = "refused" /\ UNCHANGED stored
     ELSE /\ phase' = "done"
          /\ stored' = [path |-> TRUE, l |-> FoldLeft(LAMBDA a, w : a \o kept[w], <<>>, ready)]
  /\ UNCHANGED <<lines, cut, T, split, at, kept, st, hand, stop, failed, ready>>
\* A group of transactions is committed as one (C06); what is not is gone.
Crash == phase = "work" /\ phase' = "crashed"
         /\ UNCHANGED <<lines, cut, T, split, at, kept, st, hand, stop, failed, ready, stored>>
Next == (\E w \in W : Take(w) \/ Keep(w) \/ Ready(w)) \/ Finish \/ Crash
Work == (\E w \in W : Take(w) \/ Keep(w) \/ Ready(w)) \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Work)

Good == ~cut /\ \A k \in 1..N : lines[k]
\* Complete or nothing, each line once, in order within a share.
AllOrNothing ==
  /\ phase = "done" => Good /\ stored.path /\ InShares(stored.l, N, T)
  /\ phase \in {"work", "refused", "crashed"} => stored = [path |-> FALSE, l |-> <<>>]
  /\ phase = "refused" => ~Good
\* No line is in two hands.
Once == \A v, w \in W : v # w => {kept[v][i] : i \in 1..Len(kept[v])} \cap {kept[w][i] : i \in 1..Len(kept[w])} = {}
Ends == <>(phase \in {"done", "refused", "crashed"})

MCClass(c) == IF c >= 97 THEN "yes" ELSE "no"
MCFold(c, b) == b
(* --- what is said about lines and fields, over all short texts ------------- *)
Alphabet == {97, 9, 10, 13, 44}
RECURSIVE Texts(_)
Texts(n) == IF n = 0 THEN {<<>>} ELSE LET S == Texts(n - 1) IN S \cup {Append(s, c) : s \in {t \in S : Len(t) = n - 1}, c \in Alphabet}
Joined(l, sep) == IF l = <<>> THEN <<>> ELSE FoldLeft(LAMBDA a, x : a \o sep \o x, Head(l), Tail(l))
Letters(s) == Len(SelectSeq(s, LAMBDA c : c = 97))
ASSUME \A s \in Texts(5) :
  /\ Joined(JsonLines(s), <<10>>) \in {s, SubSeq(s, 1, Len(s) - 1)}
  /\ \A l \in Range(TextLines(s)) : \A i \in 1..Len(l) : l[i] \notin {10, 13}
  /\ Letters(s) = FoldLeft(LAMBDA a, l : a + Letters(l), 0, TextLines(s))
  /\ \A sep \in {<<44>>, <<9>>, <<44, 44>>} : Joined(Fields(s, sep), sep) = s
  /\ \A sep \in {<<>>, <<44>>, <<9>>} :
       FoldLeft(LAMBDA a, r : a + r.n, 0, Rows(s, sep, FALSE)) =
       Len(Cut(Joined(FoldLeft(LAMBDA a, l : a \o Fields(l, sep), <<>>, TextLines(s)), <<10>>), "utf8"))
=============================================================================
