------------------------------- MODULE Static -------------------------------
(* A static burrow: built once, then changed by one transaction at a time.  It is a Store whose text is one stream:
   bytes ahead of a transaction's first token follow the last token before it.  A view is what a warren sees that
   was opened at some time, until the next commit begins.  Recovery settles a transaction a crash left behind. *)
EXTENDS Store

Busy == \E w \in DOMAIN cur : cur[w] # None

\* refused while another transaction is in progress, by whatever warren
SBegin(w, t, ok) == IF Busy THEN ~ok /\ UNCHANGED svars ELSE ok /\ Begin(w, t)

SAppend(w, lead0, units0, words) ==
  LET t == Cur(w)  x == txn[t]  n == Len(x.units)
      lead == IF units0 = <<>> THEN Completed(lead0) ELSE lead0
      units == IF units0 = <<>> THEN <<>> ELSE [units0 EXCEPT ![Len(units0)] = Completed(@)]
  IN
  /\ t # None /\ x.st = "open"
  /\ txn' = [txn EXCEPT ![t].units = (IF n = 0 THEN <<>> ELSE [x.units EXCEPT ![n] = @ \o lead]) \o units,
                        ![t].lead = IF n = 0 THEN @ \o lead ELSE @,
                        ![t].anns = @ \o [i \in 1..Len(words) |-> <<words[i], <<0, n + i - 1>>, <<0, n + i - 1>>, 0>>]]
  /\ UNCHANGED <<cur, view, order, hw>>

SReady(w) ==
  LET t == Cur(w)  x == txn[t]  b == Tokens(Committed) IN
  /\ t # None /\ x.st = "open"
  /\ txn' = [txn EXCEPT ![t].st = "ready", ![t].base = b,
        ![t].anns = [i \in 1..Len(x.anns) |-> <<x.anns[i][1], At(x.anns[i][2], b), At(x.anns[i][3], b), x.anns[i][4]>>]]
  /\ order' = order \o <<t>>
  /\ UNCHANGED <<cur, view, hw>>

\* Opening the burrow removes temporary files of the transaction in progress, which may then only be aborted.
SNotReady(w) == Cur(w) # None /\ txn[Cur(w)].st = "open" /\ UNCHANGED svars

\* addresses of a transaction that is gone are used again
SAbort(w) ==
  LET t == Cur(w) IN
  /\ t # None
  /\ txn' = [txn EXCEPT ![t].st = "aborted", ![t].base = -1] /\ cur' = Put(cur, w, None)
  /\ UNCHANGED <<view, order, hw>>

SOpen(w) == view' = Put(view, w, Committed) /\ cur' = Put(cur, w, None) /\ UNCHANGED <<txn, order, hw>>

\* Every process is gone; the transaction left behind, if any, is decided.
Recover(commit) ==
  LET left == {cur[w] : w \in {v \in DOMAIN cur : cur[v] # None}} IN
  /\ commit => \A t \in left : txn[t].st = "ready"
  /\ txn' = [t \in DOMAIN txn |-> IF t \notin left THEN txn[t]
                                  ELSE IF commit THEN [txn[t] EXCEPT !.st = "committed"]
                                  ELSE [txn[t] EXCEPT !.st = "aborted", !.base = -1]]
  /\ cur' = [w \in DOMAIN cur |-> None] /\ view' = [w \in DOMAIN view |-> None]
  /\ UNCHANGED <<order, hw>>

Stream(S) ==
  FoldLeft(LAMBDA acc, t : (IF acc = <<>> \/ txn[t].lead = "" THEN acc ELSE [acc EXCEPT ![Len(acc)] = @ \o txn[t].lead])
                           \o txn[t].units, <<>>, InOrder(S))
STranslate(s, p, q) ==
  LET a == Max({p + 1, 1})  b == Min({q + 1, Len(s)}) IN
  IF a > b THEN "" ELSE FoldLeft(LAMBDA x, u : x \o u, "", SubSeq(s, a, b))
=============================================================================
