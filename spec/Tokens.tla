------------------------------- MODULE Tokens -------------------------------
(***************************************************************************)
(* How text is cut into tokens.  Text is a sequence of bytes.  A token is  *)
(* <<offset, length, texts>>: where it is (from 0), and the texts a search *)
(* finds it by; tokens have consecutive addresses, from 0.                 *)
(*                                                                         *)
(* Kinds: "ascii" - letters and digits; "xml" - as ascii, where a tag is a *)
(* token and an entity is none; "utf8" - characters by their class.        *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS
  Class(_),   \* of a code point: "no" - not in a token; "yes" - in a word; "one" - a token of its own
  Fold(_, _)  \* of a code point and its bytes: the bytes it is searched by

Upper(c) == c >= 65 /\ c <= 90
Alpha(c) == Upper(c) \/ (c >= 97 /\ c <= 122)
Alnum(c) == Alpha(c) \/ (c >= 48 /\ c <= 57)
Alnums == {c \in 0..255 : Alnum(c)}
Lower(c) == IF Upper(c) THEN c + 32 ELSE c
Lowered(s) == [i \in 1..Len(s) |-> Lower(s[i])]

\* the first position from p on whose byte is not in S / is in S
RECURSIVE While(_, _, _), Until(_, _, _)
While(s, p, S) == IF p <= Len(s) /\ s[p] \in S THEN While(s, p + 1, S) ELSE p
Until(s, p, S) == IF p <= Len(s) /\ s[p] \notin S THEN Until(s, p + 1, S) ELSE p

(* --- ascii --------------------------------------------------------------- *)
TagInitial(c) == Alpha(c) \/ c = 95
TagCharacters == Alnums \cup {45, 95, 46}

\* A tag at p: a name directly after "<" or "</", and ">" further on in the same line.  Known as "<name>".
\* <<position after the name, position of ">">>, or <<>>
TagAt(s, p) ==
  LET n == IF p < Len(s) /\ s[p + 1] = 47 THEN p + 2 ELSE p + 1 IN
  IF n > Len(s) \/ ~TagInitial(s[n]) THEN <<>>
  ELSE LET q == While(s, n, TagCharacters)  r == Until(s, q, {10, 62}) IN
       IF r <= Len(s) /\ s[r] = 62 THEN <<q, r>> ELSE <<>>

\* An entity at p ends at a semicolon ahead of any blank or newline.
EntityEnd(s, p) ==
  LET q == Until(s, p + 1, {32, 10, 59}) IN IF q <= Len(s) /\ s[q] = 59 THEN q ELSE p

\* The token at or after p: <<first, after, texts>>, or <<>>.
RECURSIVE NextAscii(_, _, _)
NextAscii(s, p, xml) ==
  IF p > Len(s) THEN <<>>
  ELSE IF Alnum(s[p]) THEN
    LET q == While(s, p, Alnums)  w == SubSeq(s, p, q - 1) IN
    \* with capitals beyond the first letter also as it is written
    <<p, q, IF \E i \in 2..Len(w) : Upper(w[i]) THEN {w, Lowered(w)} ELSE {Lowered(w)}>>
  ELSE IF xml /\ s[p] = 60 THEN
    LET t == TagAt(s, p) IN
    IF t = <<>> THEN NextAscii(s, p + 1, xml)
    ELSE <<p, t[2] + 1, {Append(SubSeq(s, p, t[1] - 1), 62)}>>
  ELSE IF xml /\ s[p] = 38 THEN NextAscii(s, EntityEnd(s, p) + 1, xml)
  ELSE NextAscii(s, p + 1, xml)

(* --- utf8 ---------------------------------------------------------------- *)
Cont(c) == c \div 64 = 2
\* The character at p: <<code point, number of bytes>>.  What is not a character is a blank of one byte.
CharAt(s, p) ==
  LET c == s[p]
      n == IF c < 128 THEN 1 ELSE IF c \div 32 = 6 THEN 2 ELSE IF c \div 16 = 14 THEN 3
           ELSE IF c \div 8 = 30 THEN 4 ELSE 0 IN
  IF n = 1 THEN <<c, 1>>
  ELSE IF n = 0 \/ p + n - 1 > Len(s) \/ \E i \in p + 1..p + n - 1 : ~Cont(s[i]) THEN <<32, 1>>
  ELSE <<CASE n = 2 -> (c % 32) * 64 + (s[p + 1] % 64)
           [] n = 3 -> (c % 16) * 4096 + (s[p + 1] % 64) * 64 + (s[p + 2] % 64)
           [] n = 4 -> (c % 8) * 262144 + (s[p + 1] % 64) * 4096 + (s[p + 2] % 64) * 64 + (s[p + 3] % 64), n>>

RECURSIVE WordEnd(_, _), Folded(_, _, _), NextUtf8(_, _)
WordEnd(s, p) ==
  IF p > Len(s) THEN p
  ELSE LET c == CharAt(s, p) IN IF Class(c[1]) = "yes" THEN WordEnd(s, p + c[2]) ELSE p
Folded(s, p, q) ==
  IF p >= q THEN <<>>
  ELSE LET c == CharAt(s, p) IN Fold(c[1], SubSeq(s, p, p + c[2] - 1)) \o Folded(s, p + c[2], q)
NextUtf8(s, p) ==
  IF p > Len(s) THEN <<>>
  ELSE LET c == CharAt(s, p) IN
       CASE Class(c[1]) = "no"  -> NextUtf8(s, p + c[2])
         [] Class(c[1]) = "one" -> <<p, p + c[2], {SubSeq(s, p, p + c[2] - 1)}>>
         [] Class(c[1]) = "yes" -> LET q == WordEnd(s, p) IN <<p, q, {Folded(s, p, q)}>>

(* --- all of them ----------------------------------------------------------- *)
Next_(s, p, kind) ==
  CASE kind = "ascii" -> NextAscii(s, p, FALSE)
    [] kind = "xml"   -> NextAscii(s, p, TRUE)
    [] kind = "utf8"  -> NextUtf8(s, p)

RECURSIVE TokensFrom(_, _, _, _)
TokensFrom(s, p, kind, acc) ==
  LET t == Next_(s, p, kind) IN
  IF t = <<>> THEN acc
  ELSE TokensFrom(s, t[2], kind, Append(acc, <<t[1] - 1, t[2] - t[1], t[3]>>))
Cut(s, kind) == TokensFrom(s, 1, kind, <<>>)

\* Skipping n tokens ends at the start of the next one, or at the end.
SkipTo(s, cut, n) == IF n < Len(cut) THEN cut[n + 1][1] ELSE Len(s)

(* --- what follows (checked by MCTokens) ------------------------------------ *)
\* Tokens are in text order, none overlaps another.
Ordered(s, cut) ==
  \A i \in 1..Len(cut) : /\ cut[i][2] > 0 /\ cut[i][1] + cut[i][2] <= Len(s)
                         /\ i > 1 => cut[i - 1][1] + cut[i - 1][2] <= cut[i][1]
\* From the start of a token on, the same tokens.
SameFrom(s, cut, kind) ==
  \A i \in 1..Len(cut) :
    LET o == cut[i][1]  tail == Cut(SubSeq(s, o + 1, Len(s)), kind) IN
    /\ Len(tail) = Len(cut) - i + 1
    /\ \A k \in 1..Len(tail) : tail[k] = <<cut[i + k - 1][1] - o, cut[i + k - 1][2], cut[i + k - 1][3]>>
\* Text ending in a newline is cut the same way whatever follows; with tags
\* and entities only if none is left open.
Closed(s, next, kind) ==
  LET a == Cut(s, kind)  b == Cut(next, kind) IN
  Cut(s \o next, kind) =
    a \o [i \in 1..Len(b) |-> <<b[i][1] + Len(s), b[i][2], b[i][3]>>]
=============================================================================
