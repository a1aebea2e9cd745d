----------------------------- MODULE QueryText -----------------------------
(***************************************************************************)
(* The query language as text.  A text is a sequence of byte codes;        *)
(* Parse(s) is the query it denotes, or NoQuery when it is malformed.      *)
(* Leaves are [op |-> "t", f |-> codes]; a quoted term keeps its quotes.   *)
(***************************************************************************)
EXTENDS GCL

NoQuery == [op |-> "none"]
\* operator spellings
OpNames == {
  <<<<35>>, "#">>,
  <<<<102, 105, 120, 101, 100, 95, 119, 105, 100, 116, 104>>, "#">>,
  <<<<43>>, "+">>,
  <<<<111, 110, 101, 95, 111, 102>>, "+">>,
  <<<<94>>, "^">>,
  <<<<97, 108, 108, 95, 111, 102>>, "^">>,
  <<<<46, 46, 46>>, "...">>,
  <<<<60, 62>>, "...">>,
  <<<<102, 111, 108, 108, 111, 119, 101, 100, 95, 98, 121>>, "...">>,
  <<<<60, 60>>, "<<">>,
  <<<<99, 111, 110, 116, 97, 105, 110, 101, 100, 95, 105, 110>>, "<<">>,
  <<<<62, 62>>, ">>">>,
  <<<<99, 111, 110, 116, 97, 105, 110, 105, 110, 103>>, ">>">>,
  <<<<33, 60>>, "!<">>,
  <<<<110, 111, 116, 95, 99, 111, 110, 116, 97, 105, 110, 101, 100, 95, 105, 110>>, "!<">>,
  <<<<33, 62>>, "!>">>,
  <<<<110, 111, 116, 95, 99, 111, 110, 116, 97, 105, 110, 105, 110, 103>>, "!>">>,
  <<<<64>>, "@">>,
  <<<<108, 105, 110, 107>>, "@">>,
  <<<<109, 97, 116, 101, 114, 105, 97, 108, 105, 122, 101>>, "m">>}
Spelled(w) == \E x \in OpNames : x[1] = w
OpOf(w) == (CHOOSE x \in OpNames : x[1] = w)[2]
MinOps(o) == IF o \in {"<<", ">>", "!<", "!>"} THEN 2 ELSE 1
MaxOps(o) == IF o \in {"@", "m"} THEN 1 ELSE 1000000

WS == {32, 9}
Quote == {34, 39, 96}
LP == 40  RP == 41  BS == 92
At(s, i) == IF i > Len(s) THEN 0 ELSE s[i]
IsTerm(ch) == ch \notin (WS \cup {LP, RP, 0})
Digit(ch) == ch >= 48 /\ ch <= 57

RECURSIVE SkipWS(_, _), RunTerm(_, _), RunQuote(_, _, _, _), RunNum(_, _, _), Expr(_, _), Args(_, _, _)
SkipWS(s, i) == IF At(s, i) \in WS THEN SkipWS(s, i + 1) ELSE i
RunTerm(s, i) == IF i <= Len(s) /\ IsTerm(s[i]) THEN RunTerm(s, i + 1) ELSE i
\* index of the closing quote, or 0
RunQuote(s, i, qc, esc) ==
  IF i > Len(s) \/ At(s, i) = 0 THEN 0
  ELSE IF s[i] = qc /\ ~esc THEN i
  ELSE RunQuote(s, i + 1, qc, s[i] = BS)
RunNum(s, i, acc) == IF Digit(At(s, i)) THEN RunNum(s, i + 1, 10 * acc + s[i] - 48) ELSE <<acc, i>>

Fail == [ok |-> FALSE, next |-> 0, tree |-> NoQuery]
Leaf(s, i, j) == [ok |-> TRUE, next |-> j, tree |-> [op |-> "t", f |-> SubSeq(s, i, j - 1)]]
\* one expression starting at i (after whitespace); next is just past it
Expr(s, i0) ==
  LET i == SkipWS(s, i0) IN
  IF At(s, i) # LP THEN
    IF i > Len(s) \/ ~IsTerm(s[i]) THEN Fail
    ELSE IF s[i] \in Quote THEN
      LET j == RunQuote(s, i + 1, s[i], FALSE) IN IF j = 0 THEN Fail ELSE Leaf(s, i, j + 1)
    ELSE Leaf(s, i, RunTerm(s, i))
  ELSE
    LET a == SkipWS(s, i + 1)  b == RunTerm(s, a)  w == SubSeq(s, a, b - 1)  c == SkipWS(s, b) IN
    IF a = b \/ ~Spelled(w) THEN Fail
    ELSE IF OpOf(w) = "#" THEN
      IF ~Digit(At(s, c)) THEN Fail
      ELSE LET r == RunNum(s, c, 0)  d == SkipWS(s, r[2]) IN
           IF At(s, d) # RP THEN Fail
           ELSE [ok |-> TRUE, next |-> d + 1, tree |-> [op |-> "#", n |-> r[1]]]
    ELSE
      LET r == Args(s, c, <<>>) IN
      IF ~r.ok \/ Len(r.xs) < MinOps(OpOf(w)) \/ Len(r.xs) > MaxOps(OpOf(w)) THEN Fail
      ELSE [ok |-> TRUE, next |-> r.next, tree |-> [op |-> OpOf(w), x |-> r.xs]]
Args(s, i0, acc) ==
  LET i == SkipWS(s, i0) IN
  IF At(s, i) = RP THEN [ok |-> TRUE, next |-> i + 1, xs |-> acc]
  ELSE IF i > Len(s) \/ At(s, i) = 0 THEN [ok |-> FALSE, next |-> i, xs |-> acc]
  ELSE LET r == Expr(s, i) IN
       IF ~r.ok THEN [ok |-> FALSE, next |-> i, xs |-> acc] ELSE Args(s, r.next, Append(acc, r.tree))

RECURSIVE Tail2(_, _)
Tail2(s, i) == IF At(s, i) \in WS \cup {10, 13} THEN Tail2(s, i + 1) ELSE i
Parse(s) == LET r == Expr(s, 1) IN
            IF r.ok /\ Tail2(s, r.next) = Len(s) + 1 THEN r.tree ELSE NoQuery

(***************************************************************************)
(* Nested two-operand form.                                                *)
(***************************************************************************)
RECURSIVE Binary(_), FoldB(_, _, _)
FoldB(o, acc, xs) == IF xs = <<>> THEN acc
  ELSE FoldB(o, [op |-> o, x |-> <<acc, Binary(Head(xs))>>], Tail(xs))
Binary(t) ==
  IF t.op \in {"t", "#"} THEN t
  ELSE IF Len(t.x) = 1 THEN [op |-> t.op, x |-> <<Binary(t.x[1])>>]
  ELSE FoldB(t.op, [op |-> t.op, x |-> <<Binary(t.x[1]), Binary(t.x[2])>>], SubSeq(t.x, 3, Len(t.x)))

(***************************************************************************)
(* Phrases.  split maps a quoted text to the tokens it is cut into.        *)
(***************************************************************************)
IsPhrase(f) == Len(f) > 2 /\ f[1] = 34 /\ f[Len(f)] = 34
Pick(tbl, key, dflt) == LET S == {i \in 1..Len(tbl) : tbl[i][1] = key} IN
                        IF S = {} THEN dflt ELSE tbl[CHOOSE i \in S : TRUE][2]
DPhrase(ts, tbl) ==
  LET L(j) == Rng(Pick(tbl, ts[j], <<>>)) IN
  AsList({<<a[1], a[1] + Len(ts) - 1, ANY>> :
     a \in {b \in L(1) : \A j \in 1..Len(ts) : \E y \in L(j) : y[1] = b[1] + j - 1 /\ y[2] = y[1]}})
\* windows of width n holding a member of A (the left operand of >> is a width)
DWinHas(n, A) == AsList(UNION {{<<i, i + n - 1, ANY>> : i \in (a[2] - n + 1)..a[1]} : a \in Rng(A)})

\* every window of width n within [r[1], r[2]]: all that can matter to what is
\* kept of an all-of that has windows among its operands
DWindows(n, r) == [i \in 1..Mx(0, r[2] - r[1] + 2 - n) |-> <<r[1] + i - 1, r[1] + i + n - 2, ANY>>]
Around(tbl) ==
  LET S == UNION {Rng(tbl[i][2]) : i \in 1..Len(tbl)}
  IN IF S = {} THEN <<0, 40>> ELSE <<Min({x[1] : x \in S}) - 40, Max({x[2] : x \in S}) + 40>>

RECURSIVE TDen(_, _, _), TFold(_, _, _, _, _)
TFold(o, acc, xs, tbl, sp) ==
  IF xs = <<>> THEN acc
  ELSE LET b == Head(xs) IN
       TFold(o, IF b.op = "#" THEN
                  (CASE o = "<<" -> DInWidth(acc, b.n)
                     [] o = "!<" -> DNotInWidth(acc, b.n)
                     [] OTHER -> DOp(o, acc, DWindows(b.n, Around(tbl))))
                ELSE DOp(o, acc, TDen(b, tbl, sp)), Tail(xs), tbl, sp)
TDen(e, tbl, sp) ==
  CASE e.op = "t" ->
        (IF IsPhrase(e.f) /\ Len(Pick(sp, e.f, <<>>)) > 0
         THEN LET ts == Pick(sp, e.f, <<>>) IN
              IF Len(ts) = 1 THEN Pick(tbl, ts[1], <<>>) ELSE DPhrase(ts, tbl)
         ELSE Pick(tbl, e.f, <<>>))
    [] e.op = "#" -> DWindows(e.n, Around(tbl))
    [] e.op = "@" -> DLink(TDen(e.x[1], tbl, sp))
    [] e.op = "m" -> TDen(e.x[1], tbl, sp)
    [] e.op = ">>" /\ e.x[1].op = "#" ->
         TFold(">>", DWinHas(e.x[1].n, TDen(e.x[2], tbl, sp)), SubSeq(e.x, 3, Len(e.x)), tbl, sp)
    [] OTHER -> TFold(e.op, TDen(e.x[1], tbl, sp), Tail(e.x), tbl, sp)
=============================================================================
