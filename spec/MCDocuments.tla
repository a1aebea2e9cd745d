----------------------------- MODULE MCDocuments -----------------------------
(* Every document up to a depth, with what it is stored as. *)
EXTENDS Documents
CONSTANT Deep
VARIABLES d, level
MCClass(c) == IF (c >= 97 /\ c <= 122) \/ (c >= 48 /\ c <= 57) THEN "yes" ELSE IF c >= 64976 /\ c <= 65007 THEN "one" ELSE "no"
MCFold(c, b) == b
Names == {<<>>, <<97>>, <<97, 58>>, <<91, 48, 93>>, <<58, 97>>}
Strings == {<<>>, <<97, 32, 98>>, <<34>>, <<239, 183, 148>>}
Scalars == {[k |-> "null"], [k |-> "bool", b |-> TRUE], [k |-> "num", v |-> 0, x |-> 0]} \cup {[k |-> "str", s |-> s] : s \in Strings}
Arrays(D) == {[k |-> "arr", e |-> e] : e \in UNION {[1..n -> D] : n \in 0..2}}
Objects(N, D) == {[k |-> "obj", m |-> m] : m \in UNION {[1..n -> N \X D] : n \in 0..2}}
Small == {[k |-> "null"], [k |-> "num", v |-> 0, x |-> 0], [k |-> "str", s |-> <<97, 32, 98>>]}
One == Scalars \cup Arrays(Small) \cup {[k |-> "obj", m |-> <<>>]} \cup {[k |-> "obj", m |-> <<<<n, x>>>>] : n \in Names, x \in Small}
Arr(e) == [k |-> "arr", e |-> e]
Obj(m) == [k |-> "obj", m |-> m]
\* d inside something more, beside an x
Around(N, D) ==
  {Arr(<<d>>)} \cup UNION {{Arr(<<d, x>>), Arr(<<x, d>>)} : x \in D} \cup {Obj(<<<<n, d>>>>) : n \in N}
  \cup UNION {{Obj(<<<<n, d>>, <<m, x>>>>), Obj(<<<<m, x>>, <<n, d>>>>)} : n \in N, m \in N, x \in D}
Init == d \in One /\ level = 0
Next == /\ level < Deep /\ level' = level + 1
        /\ d' \in IF level = 0 THEN Around(Names, Small) ELSE Around({<<>>, <<97>>, <<58, 97>>}, {[k |-> "null"]})
Spec == Init /\ [][Next]_<<d, level>>
Nums == [i \in 1..20 |-> [b |-> <<48>>, x |-> 0]]
Ok == LET n == Normal(d)  l == Stored(n, Nums) IN
      /\ l.ok /\ Normal(n) = n
      /\ Laminar(l.nodes) /\ PathsApart(l.anns) /\ OneRoot(l) /\ Readable(n, l)
=============================================================================
