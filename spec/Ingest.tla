------------------------------- MODULE Ingest -------------------------------
(***************************************************************************)
(* Files appended to a meadow.  First the append itself: workers share one *)
(* reader and each keep what they take in a transaction of their own; the  *)
(* path of the file is in a transaction of its own as well, and all become *)
(* visible together or not at all.  Then what a file means: its lines, its *)
(* fields, and the rows they are stored as.                                *)
(***************************************************************************)
EXTENDS Tokens, SequencesExt, FiniteSetsExt

(* --- lines of a file ------------------------------------------------------ *)
\* JSON lines end in a newline, but for the last one if there is anything.
RECURSIVE JsonLinesFrom(_, _, _)
JsonLinesFrom(s, p, acc) ==
  IF p > Len(s) THEN acc
  ELSE LET q == Until(s, p, {10}) IN JsonLinesFrom(s, q + 1, Append(acc, SubSeq(s, p, q - 1)))
JsonLines(s) == JsonLinesFrom(s, 1, <<>>)

\* Lines of separated fields may also end in a carriage return, or in both.
RECURSIVE TextLinesFrom(_, _, _)
TextLinesFrom(s, p, acc) ==
  IF p > Len(s) THEN acc
  ELSE LET q == Until(s, p, {10, 13})
           r == IF q < Len(s) /\ s[q] = 13 /\ s[q + 1] = 10 THEN q + 2 ELSE q + 1
       IN TextLinesFrom(s, r, Append(acc, SubSeq(s, p, q - 1)))
TextLines(s) == TextLinesFrom(s, 1, <<>>)

(* --- fields of a line ------------------------------------------------------ *)
Blanks == {9, 10, 11, 12, 13, 32}
RECURSIVE WordsFrom(_, _, _), FieldsFrom(_, _, _, _, _)
WordsFrom(s, p, acc) ==
  LET a == While(s, p, Blanks)  b == Until(s, a, Blanks) IN
  IF a > Len(s) THEN acc ELSE WordsFrom(s, b, Append(acc, SubSeq(s, a, b - 1)))
\* p: where the field starts, q: how far it is without a separator
FieldsFrom(s, sep, p, q, acc) ==
  IF q + Len(sep) - 1 > Len(s) THEN Append(acc, SubSeq(s, p, Len(s)))
  ELSE IF SubSeq(s, q, q + Len(sep) - 1) = sep
       THEN FieldsFrom(s, sep, q + Len(sep), q + Len(sep), Append(acc, SubSeq(s, p, q - 1)))
       ELSE FieldsFrom(s, sep, p, q + 1, acc)
Fields(line, sep) == IF sep = <<>> THEN WordsFrom(line, 1, <<>>) ELSE FieldsFrom(line, sep, 1, 1, <<>>)

(* --- what is stored of a line of fields -------------------------------------- *)
\* A text that does not end in a blank is completed by a newline.
Completed(s) == IF s = <<>> \/ Last(s) \in {32, 9, 10} THEN s ELSE Append(s, 10)
\* From the first token to the end of the last one.
Core(s) == LET c == Cut(s, "utf8") IN
           IF c = <<>> THEN <<>> ELSE SubSeq(s, c[1][1] + 1, Last(c)[1] + Last(c)[2])
Pieces(line, sep) ==
  LET f == Fields(line, sep)  w == IF sep = <<>> THEN <<9>> ELSE sep IN
  [j \in 1..Len(f) |-> Completed(IF j < Len(f) THEN f[j] \o w ELSE f[j])]
\* A row: its text, its number of tokens, and the fields that have any: <<column, from, number of tokens, text>>
Row(line, sep) ==
  LET p == Pieces(line, sep)
      n == [j \in 1..Len(p) |-> Len(Cut(p[j], "utf8"))]
      before(j) == FoldLeft(LAMBDA a, x : a + x, 0, SubSeq(n, 1, j - 1))
      cols == SelectSeq([j \in 1..Len(p) |-> j], LAMBDA j : n[j] > 0)
  IN [n |-> before(Len(p) + 1), text |-> Core(FoldLeft(LAMBDA a, x : a \o x, <<>>, p)),
      cols |-> [k \in 1..Len(cols) |-> <<cols[k] - 1, before(cols[k]), n[cols[k]], Core(p[cols[k]])>>]]
\* Rows of a file, those without tokens left out; the first line may be a header.
Rows(s, sep, header) ==
  LET l == TextLines(s) IN
  SelectSeq([k \in 1..Len(l) |-> Row(l[k], sep) @@ [head |-> header /\ k = 1]], LAMBDA r : r.n > 0)

(* --- where a file is from ------------------------------------------------------ *)
PathOf(name) == IF \E i \in 1..Len(name) : name[i] = 47 THEN name ELSE <<46, 47>> \o name

(* --- shares --------------------------------------------------------------------- *)
\* s increases but for this many places, plus one
Runs(s) == 1 + Cardinality({i \in 1..Len(s) - 1 : s[i + 1] <= s[i]})
\* s is 1..n, each once, as at most T workers may have taken them: each in order
InShares(s, n, T) == /\ Len(s) = n /\ {s[i] : i \in 1..Len(s)} = 1..n
                     /\ n > 0 => Runs(s) <= T
=============================================================================
