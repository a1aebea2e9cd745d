------------------------------ MODULE MCForage ------------------------------
(***************************************************************************)
(* Foragers on one collection: every way of dividing the items between     *)
(* them, between the transactions of each, in every order of commits, with *)
(* transactions given up.  What can be read at any time is the statistics  *)
(* of the items whose transactions were committed.                         *)
(***************************************************************************)
EXTENDS Forage
CONSTANTS N, Foragers,
          Forgets  \* a forager's second transaction starts from nothing
\* Overlapping items, one without terms, some with the same.
Texts == << <<"a", "b", "a">>, <<"b">>, <<>>, <<"c", "a", "c", "c">>, <<"b", "c">> >>
Item(i) == [p |-> 3 * i, q |-> 3 * i + 3 + (i % 2), tf |-> Frequencies(Texts[i])]
All == {Item(i) : i \in 1..N}
VARIABLES
  ann,      \* what is stored
  sees,     \* of each forager: the items it adds up
  mine,     \* of each forager: those of the transaction it is in
  within,    \* whether it is in one
  ready,    \* and whether that is ready
  labelled, \* whether there is a description to find the statistics by
  counted   \* the items of committed transactions
vars == <<ann, sees, mine, within, ready, labelled, counted>>
F == Foragers
Init == /\ ann = Nothing /\ sees = [f \in F |-> {}] /\ mine = [f \in F |-> {}]
        /\ within = [f \in F |-> FALSE] /\ ready = [f \in F |-> FALSE] /\ labelled = FALSE /\ counted = {}
Taken == counted \cup UNION {mine[f] : f \in F}
Begin(f) == /\ ~within[f] /\ within' = [within EXCEPT ![f] = TRUE]
            /\ sees' = IF Forgets THEN [sees EXCEPT ![f] = {}] ELSE sees
            /\ UNCHANGED <<ann, mine, ready, labelled, counted>>
See(f, x) == /\ within[f] /\ ~ready[f] /\ x \notin Taken
                /\ sees' = [sees EXCEPT ![f] = @ \cup {x}] /\ mine' = [mine EXCEPT ![f] = @ \cup {x}]
                /\ UNCHANGED <<ann, within, ready, labelled, counted>>
Ready(f) == /\ within[f] /\ ~ready[f] /\ ready' = [ready EXCEPT ![f] = TRUE] /\ UNCHANGED <<ann, sees, mine, within, labelled, counted>>
Done(f) == within' = [within EXCEPT ![f] = FALSE] /\ ready' = [ready EXCEPT ![f] = FALSE] /\ mine' = [mine EXCEPT ![f] = {}]
\* The frequencies of earlier transactions' items are there already.
Commit(f, label) ==
  /\ ready[f] /\ Done(f)
  /\ ann' = IF sees[f] = {} THEN ann ELSE Stored(ann, [Left(sees[f]) EXCEPT !.tf = Left(mine[f]).tf])
  /\ labelled' = (labelled \/ label) /\ counted' = counted \cup mine[f] /\ UNCHANGED sees
Abort(f) == within[f] /\ Done(f) /\ UNCHANGED <<ann, sees, labelled, counted>>
Next == \E f \in F : Begin(f) \/ (\E x \in All : See(f, x)) \/ Ready(f) \/ (\E l \in BOOLEAN : Commit(f, l)) \/ Abort(f)
Spec == Init /\ [][Next]_vars

Exact ==
  /\ ReadItems(ann) = Items(counted) /\ ReadLength(ann) = Length(counted)
  /\ \A t \in Vocabulary(All) :
       /\ ReadDf(ann, t) = Df(counted, t) /\ SumDf(ann, t) = Df(counted, t)
       /\ {<<x[2], x[3]>> : x \in {y \in ann.tf : y[1] = t}} = {<<z[1], z[3]>> : z \in ToSet(Tfs(counted, t))}
\* Everything once, whoever counts it.
Once == \A f, g \in F : f # g => mine[f] \cap mine[g] = {}
=============================================================================
