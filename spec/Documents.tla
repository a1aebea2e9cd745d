------------------------------ MODULE Documents ------------------------------
(***************************************************************************)
(* JSON documents in a burrow: how a document becomes tokens, which parts  *)
(* of it are annotated under what names and values, and what can be read   *)
(* back.  Text is bytes, cut by Tokens.  A document is                     *)
(*   [k |-> "null"], [k |-> "bool", b |-> ...],                            *)
(*   [k |-> "num", v |-> as a value, x |-> exactly] (names of numbers),    *)
(*   [k |-> "str", s |-> bytes], [k |-> "arr", e |-> documents],           *)
(*   [k |-> "obj", m |-> <<name, document>> pairs, as written].            *)
(***************************************************************************)
EXTENDS Tokens, SequencesExt, FiniteSetsExt

(* --- what a document means ------------------------------------------------ *)
\* Names in the order of their bytes.
RECURSIVE Before(_, _)
Before(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
                ELSE IF Head(a) # Head(b) THEN Head(a) < Head(b) ELSE Before(Tail(a), Tail(b))
\* Noncharacters mark the structure, those of the document are replaced.
RECURSIVE CleanFrom(_, _, _)
CleanFrom(s, p, acc) ==
  IF p > Len(s) THEN acc
  ELSE IF p + 2 <= Len(s) /\ s[p] = 239 /\ s[p + 1] = 183 /\ s[p + 2] >= 144 /\ s[p + 2] <= 175
       THEN CleanFrom(s, p + 3, acc \o <<239, 191, 189>>)
       ELSE CleanFrom(s, p + 1, Append(acc, s[p]))
Clean(s) == IF \E i \in 1..Len(s) : s[i] = 239 THEN CleanFrom(s, 1, <<>>) ELSE s

\* Of a repeated name the last counts, names are in order.
Members(m) ==
  LET names == SetToSortSeq({m[i][1] : i \in 1..Len(m)}, Before)
      last(n) == CHOOSE i \in 1..Len(m) : m[i][1] = n /\ \A j \in i + 1..Len(m) : m[j][1] # n
  IN [j \in 1..Len(names) |-> m[last(names[j])]]
RECURSIVE Normal(_)
Normal(d) ==
  CASE d.k = "str" -> [d EXCEPT !.s = Clean(@)]
    [] d.k = "arr" -> [d EXCEPT !.e = [i \in 1..Len(@) |-> Normal(@[i])]]
    [] d.k = "obj" -> LET m == Members(d.m) IN
                      [d EXCEPT !.m = [i \in 1..Len(m) |-> <<Clean(m[i][1]), Normal(m[i][2])>>]]
    [] OTHER -> d

(* --- how it is stored ------------------------------------------------------ *)
Mark(b) == <<239, 183, b>>
OpenObject == Mark(144)  CloseObject == Mark(145)
OpenArray  == Mark(146)  CloseArray  == Mark(147)
OpenString == Mark(148)  CloseString == Mark(149)
Colon      == Mark(150)  Comma       == Mark(151)
OpenNumber == Mark(152)  CloseNumber == Mark(153)
Marks == {Mark(b) : b \in 144..153}

Nan == -1
Value(d) == CASE d.k = "null" -> Nan
              [] d.k = "bool" -> IF d.b THEN 1 ELSE 0
              [] d.k = "num" -> d.v
              [] d.k = "arr" -> Len(d.e)
              [] OTHER -> 0

Texts(s) == LET cut == Cut(s, "utf8") IN [i \in 1..Len(cut) |-> CHOOSE x \in cut[i][3] : TRUE]
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>

Nothing(nums) == [tokens |-> <<>>, anns |-> <<>>, nodes |-> <<>>, nums |-> nums, ok |-> TRUE]
More(l, ts) == [l EXCEPT !.tokens = @ \o ts]
Ann(l, f, p, q, v) == [l EXCEPT !.anns = Append(@, <<f, p, q, v>>)]

\* A name also names its values wherever they are, unless it reads as a path.
ShortName(n) == n # <<>> /\ n[1] # 58

\* d is stored after what l holds.  Each number is written in some way: nums, in order.
RECURSIVE Lay(_, _, _)
Lay(d, path, l) ==
  LET a == Len(l.tokens)
      body ==
        CASE d.k = "null" -> More(l, Texts(<<110, 117, 108, 108>>))
          [] d.k = "bool" -> More(l, Texts(IF d.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>))
          [] d.k = "num"  -> IF l.nums = <<>> THEN [l EXCEPT !.ok = FALSE, !.tokens = Append(@, <<>>)]
                             ELSE [More(l, <<OpenNumber>> \o Texts(l.nums[1].b) \o <<CloseNumber>>)
                                     EXCEPT !.nums = Tail(@), !.ok = @ /\ l.nums[1].x = d.x]
          [] d.k = "str"  -> More(l, <<OpenString>> \o Texts(d.s) \o <<CloseString>>)
          [] d.k = "arr"  ->
               More(FoldLeft(LAMBDA acc, i : Lay(d.e[i], path \o <<91>> \o Digits(i - 1) \o <<93, 58>>,
                                                 IF i = 1 THEN acc ELSE More(acc, <<Comma>>)),
                             More(l, <<OpenArray>>), [i \in 1..Len(d.e) |-> i]), <<CloseArray>>)
          [] d.k = "obj"  ->
               More(FoldLeft(LAMBDA acc, i :
                      LET n == d.m[i][1]
                          at == More(acc, (IF i = 1 THEN <<>> ELSE <<Comma>>) \o <<OpenString>> \o Texts(n) \o <<CloseString, Colon>>)
                          x == Lay(d.m[i][2], path \o n \o <<58>>, at)
                      IN IF ShortName(n) THEN Ann(x, n \o <<58>>, Len(at.tokens), Len(x.tokens) - 1, 0) ELSE x,
                      More(l, <<OpenObject>>), [i \in 1..Len(d.m) |-> i]), <<CloseObject>>)
  IN [Ann(body, path, a, Len(body.tokens) - 1, Value(d))
        EXCEPT !.nodes = Append(@, <<a, Len(body.tokens) - 1, d>>)]
Root == <<58>>
Stored(d, nums) == Lay(d, Root, Nothing(nums))

(* --- what follows (checked by MCDocuments) ---------------------------------- *)
\* A part of a document lies inside the parts around it and apart from all others; no two have one address interval.
Laminar(nodes) ==
  \A i, j \in 1..Len(nodes) : i < j =>
    LET x == nodes[i]  y == nodes[j] IN
    \/ x[2] < y[1] \/ y[2] < x[1]
    \/ <<x[1], x[2]>> # <<y[1], y[2]>> /\ ((x[1] <= y[1] /\ y[2] <= x[2]) \/ (y[1] <= x[1] /\ x[2] <= y[2]))
IsPath(f) == f[1] = 58
\* No occurrence of a path hides another.
PathsApart(anns) ==
  \A i, j \in 1..Len(anns) : i < j /\ anns[i][1] = anns[j][1] /\ IsPath(anns[i][1]) =>
    anns[i][3] < anns[j][2] \/ anns[j][3] < anns[i][2]
\* The whole document, and nothing else, is annotated as such.
OneRoot(l) == {i \in 1..Len(l.anns) : l.anns[i][1] = Root} =
              {CHOOSE i \in 1..Len(l.anns) : l.anns[i][1] = Root} /\
              \A i \in 1..Len(l.anns) : l.anns[i][1] = Root => <<l.anns[i][2], l.anns[i][3]>> = <<0, Len(l.tokens) - 1>>

\* The document can be read off its tokens, strings by their words.
ToMark(ts, i, m) == CHOOSE j \in i..Len(ts) : ts[j] = m /\ \A k \in i..j - 1 : ts[k] # m
RECURSIVE Read(_, _), ReadItems(_, _, _), ReadMembers(_, _, _)
Read(ts, i) ==
  CASE ts[i] = OpenString -> LET j == ToMark(ts, i, CloseString) IN <<[k |-> "str", w |-> SubSeq(ts, i + 1, j - 1)], j + 1>>
    [] ts[i] = OpenNumber -> LET j == ToMark(ts, i, CloseNumber) IN <<[k |-> "num", w |-> SubSeq(ts, i + 1, j - 1)], j + 1>>
    [] ts[i] = OpenArray  -> IF ts[i + 1] = CloseArray THEN <<[k |-> "arr", e |-> <<>>], i + 2>> ELSE ReadItems(ts, i + 1, <<>>)
    [] ts[i] = OpenObject -> IF ts[i + 1] = CloseObject THEN <<[k |-> "obj", m |-> <<>>], i + 2>> ELSE ReadMembers(ts, i + 1, <<>>)
    [] OTHER -> <<[k |-> "word", w |-> ts[i]], i + 1>>
ReadItems(ts, i, acc) ==
  LET x == Read(ts, i)  all == Append(acc, x[1]) IN
  IF ts[x[2]] = Comma THEN ReadItems(ts, x[2] + 1, all) ELSE <<[k |-> "arr", e |-> all], x[2] + 1>>
ReadMembers(ts, i, acc) ==
  LET n == Read(ts, i)  x == Read(ts, n[2] + 1)  all == Append(acc, <<n[1].w, x[1]>>) IN
  IF ts[x[2]] = Comma THEN ReadMembers(ts, x[2] + 1, all) ELSE <<[k |-> "obj", m |-> all], x[2] + 1>>
RECURSIVE InWords(_)
InWords(d) ==
  CASE d.k = "null" -> [k |-> "word", w |-> <<110, 117, 108, 108>>]
    [] d.k = "bool" -> [k |-> "word", w |-> IF d.b THEN <<116, 114, 117, 101>> ELSE <<102, 97, 108, 115, 101>>]
    [] d.k = "num" -> [k |-> "num", w |-> <<<<48>>>>]
    [] d.k = "str" -> [k |-> "str", w |-> Texts(d.s)]
    [] d.k = "arr" -> [k |-> "arr", e |-> [i \in 1..Len(d.e) |-> InWords(d.e[i])]]
    [] d.k = "obj" -> [k |-> "obj", m |-> [i \in 1..Len(d.m) |-> <<Texts(d.m[i][1]), InWords(d.m[i][2])>>]]
Readable(d, l) == Read(l.tokens, 1) = <<InWords(d), Len(l.tokens) + 1>>
=============================================================================
