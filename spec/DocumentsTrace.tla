--------------------------- MODULE DocumentsTrace ---------------------------
(***************************************************************************)
(* Histories of a burrow holding JSON documents, decided by Documents (what *)
(* a document is stored as) and Store (what a view shows of it).           *)
(***************************************************************************)
EXTENDS StoreTrace, Documents
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == LET k == ToString(c) IN
                IF k \in DOMAIN Table /\ Table[k][2] # <<>> THEN Table[k][2] ELSE b

VARIABLE parts  \* transaction -> <<from, to, document>> of every part of its documents, from its start
dvars == <<vars, parts>>
Parts(t) == IF t \in DOMAIN parts THEN parts[t] ELSE <<>>

Word(x) == IF x \in Marks THEN <<-1>> ELSE x
AppendDocument(w, l) ==
  LET t == Cur(w)  n == Len(txn[t].units)
      own(a) == <<a[1], <<0, n + a[2]>>, <<0, n + a[3]>>, a[4]>> IN
  /\ t # None /\ txn[t].st = "open"
  /\ txn' = [txn EXCEPT ![t].units = @ \o [k \in 1..Len(l.tokens) |-> "."],
                        ![t].anns = @ \o [k \in 1..Len(l.tokens) |-> <<Word(l.tokens[k]), <<0, n + k - 1>>, <<0, n + k - 1>>, 0>>]
                                      \o [k \in 1..Len(l.anns) |-> own(l.anns[k])]]
  /\ parts' = Put(parts, t, Parts(t) \o [k \in 1..Len(l.nodes) |-> <<n + l.nodes[k][1], n + l.nodes[k][2], l.nodes[k][3]>>])
  /\ UNCHANGED <<cur, view, order, hw>>

\* How numbers were written is not known of what was never committed.
Document(e) == LET l == Stored(Normal(e.doc), e.nums) IN
               /\ e.ok /\ (e.known => l.ok /\ l.nums = <<>> /\ e.n = Len(l.tokens))
               /\ AppendDocument(e.w, l)

DAct(e) ==
  CASE e.k = "json" -> Document(e)
    [] e.k = "badjson" -> ~e.ok /\ UNCHANGED <<svars, parts>>
    [] e.k = "new" -> Act(e) /\ parts' = <<>>
    [] OTHER -> Act(e) /\ UNCHANGED parts
AllAt(S, x) == UNION {{Parts(t)[k][3] : k \in {j \in 1..Len(Parts(t)) :
                  <<txn[t].base + Parts(t)[j][1], txn[t].base + Parts(t)[j][2]>> = <<x[1], x[2]>>}} : t \in S}

Shown(e, S) ==
  /\ \A n \in 1..Len(e.fs) :
       LET l == List(S, e.fs[n]) IN
       /\ \/ e.lists[n] = l
          \/ e.lists[n] = <<>> /\ l = <<>>
          \/ Wrong(e, <<"list of", e.fs[n]>>, l, e.lists[n])
       /\ CountOk(S, e.fs[n], e.counts[n], Len(e.lists[n])) \/ Wrong(e, <<"count of", e.fs[n]>>, Len(l), e.counts[n])
  /\ \A n \in 1..Len(e.trs) :
       LET x == e.trs[n]  all == AllAt(S, x) IN
       all = {Normal(x[3])} \/ Wrong(e, <<"document at", x[1], x[2]>>, all, x[3])

DSpec0 == Spec0 /\ parts = <<>>
DNext ==
  /\ i < Len(Trace) /\ bad = 0 /\ i' = i + 1 /\ UNCHANGED <<tick, seen>>
  /\ LET e == Trace[i + 1] IN
     IF e.k = "docs" THEN bad' = (IF Shown(e, View(e.w)) THEN 0 ELSE i + 1) /\ UNCHANGED <<svars, parts>>
     ELSE \/ DAct(e) /\ bad' = 0
          \/ ~ENABLED DAct(e) /\ UNCHANGED <<svars, parts>> /\ bad' = i + 1
DSpec == DSpec0 /\ [][DNext]_dvars
=============================================================================
