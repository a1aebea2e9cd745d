------------------------------ MODULE MCTokens ------------------------------
(* All texts up to a length over an alphabet with every class of byte. *)
EXTENDS Tokens
CONSTANTS Alphabet, Kinds, N
VARIABLES s, kind
MCClass(c) == IF c \in {97, 65, 233, 201} THEN "yes" ELSE IF c = 9731 THEN "one" ELSE "no"
MCFold(c, b) == IF c = 65 THEN <<97>> ELSE IF c = 201 THEN <<195, 169>> ELSE b
Init == s = <<>> /\ kind \in Kinds
Next == Len(s) < N /\ \E c \in Alphabet : s' = Append(s, c) /\ kind' = kind
Spec == Init /\ [][Next]_<<s, kind>>
C == Cut(s, kind)
InOrder == Ordered(s, C)
Suffixes == SameFrom(s, C, kind)
Pieces == \A k \in 1..Len(s) : s[k] = 10 =>
  (kind = "xml" \/ Closed(SubSeq(s, 1, k), SubSeq(s, k + 1, Len(s)), kind))
\* every token can be found by folding its own bytes
Known == \A i \in 1..Len(C) : LET b == SubSeq(s, C[i][1] + 1, C[i][1] + C[i][2]) IN
  kind = "ascii" => Lowered(b) \in C[i][3] /\ C[i][3] \subseteq {b, Lowered(b)}
=============================================================================
