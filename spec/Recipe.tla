------------------------------- MODULE Recipe -------------------------------
(***************************************************************************)
(* Configuration text.  A text is a sequence of character codes; a recipe  *)
(* is a text that names values, which are texts and may be recipes         *)
(* themselves:   [ name: "value", name: [ name: 'value' ], ]               *)
(*                                                                         *)
(* Cook reads a text, Freeze writes one.  What must hold of the pair is    *)
(* RoundTrip: whatever the values contain - quotes, backslashes, brackets, *)
(* line ends - reading what was written gives the same names and values,   *)
(* at every depth, also after the text has been through a description file *)
(* (its lines joined) or through the head of an archive (which ends at the *)
(* first blank line).                                                      *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, Functions

NL == 10
BS == 92
DQ == 34
SQ == 39
OB == 91
CB == 93
COLON == 58
COMMA == 44
AT == 64
LowerN == 110

Space(c) == c \in 9..13 \/ c = 32
Ident(c) == c \in 48..57 \/ c \in 65..90 \/ c \in 97..122 \/ c \in {45, 46, 95}

NoMap == [x \in {} |-> <<>>]
Put(m, k, v) == [x \in DOMAIN m \cup {k} |-> IF x = k THEN v ELSE m[x]]

(* the reader, as an automaton over the characters *)
Start0 == [m |-> "open", d |-> 0, q |-> 0, key |-> <<>>, val |-> <<>>, map |-> NoMap]
Bad(s) == [s EXCEPT !.m = "bad"]
To(s, m) == [s EXCEPT !.m = m]
More(s, c) == [s EXCEPT !.val = Append(@, c)]
Named(s, v) == [s EXCEPT !.m = "after", !.map = Put(@, s.key, v)]
Value(s, c) == IF c = OB THEN [s EXCEPT !.m = "map", !.d = 0, !.val = <<>>]
               ELSE IF c \in {SQ, DQ} THEN [s EXCEPT !.m = "str", !.q = c, !.val = <<>>] ELSE Bad(s)
Step(s, c) ==
  CASE s.m = "bad" -> s
    [] s.m = "done" -> s
    [] c = 0 -> IF s.m = "end" THEN To(s, "done") ELSE Bad(s)
    [] s.m = "open" -> IF Space(c) THEN s ELSE IF c = OB THEN To(s, "item") ELSE Bad(s)
    [] s.m = "item" -> IF Space(c) THEN s ELSE IF c = CB THEN To(s, "end")
                       ELSE IF Ident(c) THEN [s EXCEPT !.m = "key", !.key = <<c>>] ELSE Bad(s)
    [] s.m = "key" -> IF Ident(c) THEN [s EXCEPT !.key = Append(@, c)] ELSE IF Space(c) THEN To(s, "colon")
                      ELSE IF c = COLON THEN To(s, "value") ELSE Bad(s)
    [] s.m = "colon" -> IF Space(c) THEN s ELSE IF c = COLON THEN To(s, "value") ELSE Bad(s)
    [] s.m = "value" -> IF Space(c) THEN s ELSE Value(s, c)
    [] s.m = "str" -> IF c = s.q THEN Named(s, s.val) ELSE IF c = BS THEN To(s, "esc") ELSE More(s, c)
    [] s.m = "esc" -> IF c = LowerN THEN To(More(s, NL), "str")
                      ELSE IF c \in {BS, s.q} THEN To(More(s, c), "str") ELSE Bad(s)
    [] s.m = "map" -> IF c = CB THEN IF s.d = 0 THEN Named(s, <<OB>> \o s.val \o <<CB>>) ELSE [More(s, c) EXCEPT !.d = @ - 1]
                      ELSE IF c = OB THEN [More(s, c) EXCEPT !.d = @ + 1]
                      ELSE IF c \in {SQ, DQ} THEN [More(s, c) EXCEPT !.m = "mstr", !.q = c] ELSE More(s, c)
    [] s.m = "mstr" -> IF c = s.q THEN To(More(s, c), "map") ELSE IF c = BS THEN To(More(s, c), "mesc") ELSE More(s, c)
    [] s.m = "mesc" -> IF c \in {BS, s.q, LowerN} THEN To(More(s, c), "mstr") ELSE Bad(s)
    [] s.m = "after" -> IF Space(c) THEN s ELSE IF c = CB THEN To(s, "end") ELSE IF c = COMMA THEN To(s, "item") ELSE Bad(s)
    [] s.m = "end" -> IF Space(c) THEN s ELSE Bad(s)
Read(t) == FoldLeft(Step, Start0, t)
Cooks(t) == Read(t).m \in {"end", "done"}
Cook(t) == Read(t).map

(* the writer *)
Indent(d) == [i \in 1..(2 * d) |-> 32]
Quoted(v) == <<DQ>> \o FlattenSeq([i \in 1..Len(v) |-> IF v[i] = NL THEN <<BS, LowerN>>
                                                       ELSE IF v[i] \in {BS, DQ} THEN <<BS, v[i]>> ELSE <<v[i]>>]) \o <<DQ>>
RECURSIVE Dump(_, _)
Dump(m, d) ==
  IF DOMAIN m = {} THEN <<OB, CB>>
  ELSE LET ks == SetToSeq(DOMAIN m) IN
       <<OB, NL>> \o
       FlattenSeq([i \in 1..Len(ks) |-> Indent(d + 1) \o ks[i] \o <<COLON>> \o
                     (IF Cooks(m[ks[i]]) THEN Dump(Cook(m[ks[i]]), d + 1) ELSE Quoted(m[ks[i]])) \o <<COMMA, NL>>]) \o
       Indent(d) \o <<CB>>
Freeze(m) == Dump(m, 0) \o <<NL>>

(* two values are the same if they are the same text, or recipes naming the same values *)
RECURSIVE Same(_, _)
Same(v, w) ==
  \/ v = w
  \/ /\ Cooks(v) /\ Cooks(w)
     /\ LET a == Cook(v) b == Cook(w) IN DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Same(a[k], b[k])
SameMap(a, b) == DOMAIN a = DOMAIN b /\ \A k \in DOMAIN a : Same(a[k], b[k])

Expressible(k, v) == k # <<>> /\ (\A i \in 1..Len(k) : Ident(k[i])) /\ \A i \in 1..Len(v) : v[i] # 0

(* what becomes of a text in a description file, and in the head of an archive *)
Joined(t) == [i \in 1..Len(t) |-> IF t[i] = NL THEN 32 ELSE t[i]]
Head0(t) == LET blank == {i \in 1..(Len(t) - 1) : t[i] = NL /\ t[i + 1] = NL} IN
            IF blank = {} THEN t ELSE SubSeq(t, 1, Min(blank))

RoundTrip(m) ==
  LET t == Freeze(m) IN
  /\ Cooks(t) /\ SameMap(Cook(t), m)
  /\ Cooks(Joined(t)) /\ SameMap(Cook(Joined(t)), m)
  /\ Cooks(Head0(t \o <<NL>>)) /\ SameMap(Cook(Head0(t \o <<NL>>)), m)

-----------------------------------------------------------------------------
(* options, as given on a command line, change one named setting *)
RECURSIVE Pieces(_, _)
Pieces(o, c) == LET at == {i \in 1..Len(o) : o[i] = c} IN
                IF at = {} THEN IF o = <<>> THEN <<>> ELSE <<o>>
                ELSE <<SubSeq(o, 1, Min(at) - 1)>> \o Pieces(SubSeq(o, Min(at) + 1, Len(o)), c)
NameKey == <<110, 97, 109, 101>>
RecipeKey == <<114, 101, 99, 105, 112, 101>>
Refused == [ok |-> FALSE, m |-> NoMap]
Accept(m) == [ok |-> TRUE, m |-> m]
Interpret(m, o) ==
  LET w == Pieces(o, AT) p == Pieces(o, COLON)
      has == p # <<>> /\ p[1] \in DOMAIN m
      it == IF has /\ Cooks(m[p[1]]) THEN Cook(m[p[1]]) ELSE NoMap IN
  IF o = <<>> THEN Accept(m)
  ELSE IF Len(w) = 2 THEN
    IF w[1] \notin DOMAIN m THEN Refused
    ELSE Accept(Put(m, w[1], Freeze(Put(Put(NoMap, NameKey, w[2]), RecipeKey, m[w[1]]))))
  ELSE IF Len(p) \notin {2, 3} \/ ~has THEN Refused
  ELSE IF ~Cooks(m[p[1]]) THEN Refused
  ELSE IF Len(p) = 2 THEN Accept(Put(m, p[1], Freeze(Put(it, RecipeKey, p[2]))))
  ELSE IF p[2] = NameKey THEN Accept(Put(m, p[1], Freeze(Put(Put(it, NameKey, p[3]), RecipeKey, <<>>))))
  ELSE IF RecipeKey \notin DOMAIN it THEN Refused
  ELSE IF ~Cooks(it[RecipeKey]) THEN Refused
  ELSE IF p[2] \notin DOMAIN Cook(it[RecipeKey]) THEN Refused
  ELSE Accept(Put(m, p[1], Freeze(Put(it, RecipeKey, Freeze(Put(Cook(it[RecipeKey]), p[2], p[3]))))))
NoValue == [ok |-> FALSE, v |-> <<>>]
Extract(m, o) ==
  LET p == Pieces(o, COLON)
      has == p # <<>> /\ p[1] \in DOMAIN m
      it == IF has /\ Cooks(m[p[1]]) THEN Cook(m[p[1]]) ELSE NoMap IN
  IF Len(p) \notin {1, 2, 3} \/ NameKey \notin DOMAIN it \/ RecipeKey \notin DOMAIN it THEN NoValue
  ELSE IF Len(p) = 1 THEN [ok |-> TRUE, v |-> it[RecipeKey]]
  ELSE IF p[2] = NameKey THEN [ok |-> TRUE, v |-> it[NameKey]]
  ELSE IF ~Cooks(it[RecipeKey]) THEN NoValue
  ELSE IF p[2] \notin DOMAIN Cook(it[RecipeKey]) THEN NoValue
  ELSE [ok |-> TRUE, v |-> Cook(it[RecipeKey])[p[2]]]
=============================================================================
