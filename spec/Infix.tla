------------------------------- MODULE Infix -------------------------------
(***************************************************************************)
(* The infix query language, with its definitions.  A session's state is   *)
(* env, the sequence of <<name, query>> defined so far; Say(env, s) is     *)
(* what saying the text s does: whether it is accepted, the query it       *)
(* denotes (None for a definition or a blank text) and the definitions     *)
(* afterwards.  All operators bind equally tightly, to the left.           *)
(*   query   ::=  operand { operator operand }                             *)
(*   operand ::=  "text" | name | ( query ) | [ n ] | n words              *)
(*             |  n of ( query , ... ) | one of (...) | all of (...)       *)
(*   said    ::=  empty | query | name = query                             *)
(***************************************************************************)
EXTENDS QueryText
None == [op |-> "none"]
DQ == 34
Alpha(ch) == (ch >= 65 /\ ch <= 90) \/ (ch >= 97 /\ ch <= 122)
Multi(ch) == ch \in {60, 62, 47, 46}
RECURSIVE RunAlnum(_, _), RunMulti(_, _), RunTo(_, _), Lex(_, _, _)
RunAlnum(s, i) == IF i <= Len(s) /\ (Alpha(s[i]) \/ Digit(s[i])) THEN RunAlnum(s, i + 1) ELSE i
RunMulti(s, i) == IF i <= Len(s) /\ Multi(s[i]) THEN RunMulti(s, i + 1) ELSE i
RunTo(s, i) == IF i > Len(s) THEN 0 ELSE IF s[i] = DQ THEN i ELSE RunTo(s, i + 1)
Tok(t, w, n) == [t |-> t, w |-> w, n |-> n]
Lex(s, i0, acc) ==
  LET i == SkipWS(s, i0) IN
  IF i > Len(s) THEN Append(acc, Tok("end", <<>>, 0))
  ELSE IF Digit(s[i]) THEN LET r == RunNum(s, i, 0) IN Lex(s, r[2], Append(acc, Tok("int", <<>>, r[1])))
  ELSE IF Alpha(s[i]) THEN LET j == RunAlnum(s, i) IN Lex(s, j, Append(acc, Tok("id", SubSeq(s, i, j - 1), 0)))
  ELSE IF Multi(s[i]) THEN LET j == RunMulti(s, i) IN Lex(s, j, Append(acc, Tok("op", SubSeq(s, i, j - 1), 0)))
  ELSE IF s[i] = DQ THEN
    LET j == RunTo(s, i + 1) IN
    IF j = 0 THEN Append(acc, Tok("bad", <<>>, 0))
    ELSE Lex(s, j + 1, Append(acc, Tok("str", SubSeq(s, i + 1, j - 1), 0)))
  ELSE Lex(s, i + 1, Append(acc, Tok("op", <<s[i]>>, 0)))

W_one == <<111, 110, 101>>   W_all == <<97, 108, 108>>   W_of == <<111, 102>>
W_words == <<119, 111, 114, 100, 115>>   W_in == <<105, 110>>   W_not == <<110, 111, 116>>
W_containing == <<99, 111, 110, 116, 97, 105, 110, 105, 110, 103>>
W_contained == <<99, 111, 110, 116, 97, 105, 110, 101, 100>>
W_and == <<97, 110, 100>>   W_or == <<111, 114>>
Symbol == {<<<<62, 62>>, ">>">>, <<<<62>>, ">>">>, <<<<60, 60>>, "<<">>, <<<<60>>, "<<">>,
           <<<<47, 62>>, "!>">>, <<<<47, 60>>, "!<">>, <<<<94>>, "^">>, <<W_and, "^">>, <<<<43>>, "+">>,
           <<W_or, "+">>, <<<<60, 62>>, "...">>, <<<<46, 46>>, "...">>, <<<<46, 46, 46>>, "...">>,
           <<<<46, 46, 46, 46>>, "...">>, <<W_containing, ">>">>}
Word(ts, i, w) == ts[i].t \in {"id", "op"} /\ ts[i].w = w
\* the operator at i: <<name, index just past it>>, or <<"", i>>
Oper(ts, i) ==
  IF \E x \in Symbol : Word(ts, i, x[1]) THEN <<(CHOOSE x \in Symbol : Word(ts, i, x[1]))[2], i + 1>>
  ELSE IF Word(ts, i, W_contained) THEN IF Word(ts, i + 1, W_in) THEN <<"<<", i + 2>> ELSE <<"bad", i>>
  ELSE IF Word(ts, i, W_not) THEN
    IF Word(ts, i + 1, W_containing) THEN <<"!>", i + 2>>
    ELSE IF Word(ts, i + 1, W_contained) /\ Word(ts, i + 2, W_in) THEN <<"!<", i + 3>> ELSE <<"bad", i>>
  ELSE <<"", i>>

No == [ok |-> FALSE, next |-> 0, tree |-> None]
Yes(i, t) == [ok |-> TRUE, next |-> i, tree |-> t]
Known(env, w) == \E j \in 1..Len(env) : env[j][1] = w
Value(env, w) == env[CHOOSE j \in 1..Len(env) : env[j][1] = w][2]
RECURSIVE Operand(_, _, _), Query(_, _, _), Rest(_, _, _, _), Elements(_, _, _, _)
Operand(ts, i, env) ==
  LET a == ts[i] IN
  CASE a.t = "str" -> Yes(i + 1, [op |-> "t", f |-> <<DQ>> \o a.w \o <<DQ>>])
    [] a.t = "int" \/ Word(ts, i, W_one) \/ Word(ts, i, W_all) ->
        IF Word(ts, i + 1, <<94>>) \/ Word(ts, i + 1, W_of) THEN
          IF ~Word(ts, i + 2, <<LP>>) THEN No
          ELSE LET r == Elements(ts, i + 3, env, <<>>) IN
               IF ~r.ok THEN No
               ELSE LET m == Len(r.xs)
                        n == CASE a.t = "int" -> a.n [] Word(ts, i, W_one) -> 1 [] OTHER -> m
                    IN IF n > m THEN No ELSE Yes(r.next, [op |-> "nof", n |-> n, x |-> r.xs])
        ELSE IF a.t = "int" /\ a.n > 0 /\ Word(ts, i + 1, W_words) THEN Yes(i + 2, [op |-> "#", n |-> a.n])
        ELSE No
    [] a.t = "id" /\ ~Word(ts, i, W_one) /\ ~Word(ts, i, W_all) ->
        IF Known(env, a.w) THEN Yes(i + 1, Value(env, a.w)) ELSE No
    [] Word(ts, i, <<LP>>) ->
        LET r == Query(ts, i + 1, env) IN
        IF r.ok /\ Word(ts, r.next, <<RP>>) THEN Yes(r.next + 1, r.tree) ELSE No
    [] Word(ts, i, <<91>>) ->
        IF ts[i + 1].t = "int" /\ Word(ts, i + 2, <<93>>) /\ ts[i + 1].n > 0
        THEN Yes(i + 3, [op |-> "#", n |-> ts[i + 1].n]) ELSE No
    [] OTHER -> No
Elements(ts, i, env, acc) ==
  LET r == Query(ts, i, env) IN
  IF ~r.ok THEN [ok |-> FALSE, next |-> 0, xs |-> <<>>]
  ELSE IF Word(ts, r.next, <<44>>) THEN Elements(ts, r.next + 1, env, Append(acc, r.tree))
  ELSE IF Word(ts, r.next, <<RP>>) THEN [ok |-> TRUE, next |-> r.next + 1, xs |-> Append(acc, r.tree)]
  ELSE [ok |-> FALSE, next |-> 0, xs |-> <<>>]
Query(ts, i, env) == LET r == Operand(ts, i, env) IN IF r.ok THEN Rest(ts, r.next, env, r.tree) ELSE No
Rest(ts, i, env, left) ==
  LET o == Oper(ts, i) IN
  IF o[1] = "" THEN Yes(i, left)
  ELSE IF o[1] = "bad" THEN No
  ELSE LET r == Operand(ts, o[2], env) IN
       IF ~r.ok THEN No ELSE Rest(ts, r.next, env, [op |-> o[1], x |-> <<left, r.tree>>])

Define(env, w, t) == IF Known(env, w) THEN [j \in 1..Len(env) |-> IF env[j][1] = w THEN <<w, t>> ELSE env[j]]
                     ELSE Append(env, <<w, t>>)
Said(ok, t, env) == [ok |-> ok, tree |-> t, env |-> env]
Say(env, s) ==
  LET ts == Lex(s, 1, <<>>) IN
  IF ts[1].t = "end" THEN Said(TRUE, None, env)
  ELSE LET named == ts[1].t = "id" /\ ~Word(ts, 1, W_one) /\ ~Word(ts, 1, W_all) /\ Word(ts, 2, <<61>>)
           r == Query(ts, IF named THEN 3 ELSE 1, env)
       IN IF ~r.ok \/ ts[r.next].t # "end" THEN Said(FALSE, None, env)
          ELSE IF named THEN Said(TRUE, None, Define(env, ts[1].w, r.tree))
          ELSE Said(TRUE, r.tree, env)

(***************************************************************************)
(* Queries up to what cannot matter: the order, nesting and repetition of  *)
(* the operands of + and ^, and combinations that are one of those.        *)
(***************************************************************************)
RECURSIVE Norm(_), Flat(_, _)
Group(o, S) == IF Cardinality(S) = 1 THEN CHOOSE x \in S : TRUE ELSE [op |-> o, s |-> S]
Flat(o, xs) == UNION {LET y == Norm(xs[j]) IN IF y.op = o THEN y.s ELSE {y} : j \in 1..Len(xs)}
Norm(t) ==
  CASE t.op \in {"t", "#", "none"} -> t
    [] t.op \in {"+", "^"} -> Group(t.op, Flat(t.op, t.x))
    [] t.op = "nof" ->
        (CASE t.n = 0 -> [op |-> "#", n |-> 1]
           [] t.n = 1 -> Group("+", Flat("+", t.x))
           [] t.n = Len(t.x) -> Group("^", Flat("^", t.x))
           [] OTHER -> LET ys == [j \in 1..Len(t.x) |-> Norm(t.x[j])] IN
                [op |-> "nof", n |-> t.n,
                 b |-> {<<y, Cardinality({j \in 1..Len(ys) : ys[j] = y})>> : y \in Rng(ys)}])
    [] OTHER -> [op |-> t.op, x |-> [j \in 1..Len(t.x) |-> Norm(t.x[j])]]

(***************************************************************************)
(* The parenthesised form, with (n a b ...) for a combination.             *)
(***************************************************************************)
RECURSIVE Read(_, _), ReadAll(_, _, _)
Read(s, i0) ==
  LET i == SkipWS(s, i0) IN
  IF At(s, i) = LP THEN
    LET a == SkipWS(s, i + 1)  b == RunTerm(s, a)  w == SubSeq(s, a, b - 1)  c == SkipWS(s, b) IN
    IF w = <<35>> THEN LET n == RunNum(s, c, 0)  d == SkipWS(s, n[2]) IN
                       IF Digit(At(s, c)) /\ At(s, d) = RP THEN Yes(d + 1, [op |-> "#", n |-> n[1]]) ELSE No
    ELSE LET r == ReadAll(s, c, <<>>) IN
         IF ~r.ok \/ w = <<>> THEN No
         ELSE IF Spelled(w) THEN Yes(r.next, [op |-> OpOf(w), x |-> r.xs])
         ELSE IF \A j \in 1..Len(w) : Digit(w[j]) THEN Yes(r.next, [op |-> "nof", n |-> RunNum(w, 1, 0)[1], x |-> r.xs])
         ELSE No
  ELSE IF At(s, i) = DQ THEN LET j == RunQuote(s, i + 1, DQ, FALSE) IN
                              IF j = 0 THEN No ELSE Yes(j + 1, [op |-> "t", f |-> SubSeq(s, i, j)])
  ELSE No
ReadAll(s, i0, acc) ==
  LET i == SkipWS(s, i0) IN
  IF At(s, i) = RP THEN [ok |-> acc # <<>>, next |-> i + 1, xs |-> acc]
  ELSE LET r == Read(s, i) IN
       IF r.ok THEN ReadAll(s, r.next, Append(acc, r.tree)) ELSE [ok |-> FALSE, next |-> 0, xs |-> <<>>]
Printed(s) == IF s = <<>> THEN None
              ELSE LET r == Read(s, 1) IN IF r.ok /\ SkipWS(s, r.next) = Len(s) + 1 THEN r.tree ELSE [op |-> "junk"]
=============================================================================
