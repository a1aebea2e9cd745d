------------------------------ MODULE MCInfix ------------------------------
(***************************************************************************)
(* The infix grammar itself, over every text of at most N tokens drawn     *)
(* from a small vocabulary, said after a definition of x:                  *)
(*  - a text said twice denotes the same thing both times, whatever was    *)
(*    said and refused in between;                                         *)
(*  - a refused text defines nothing, an accepted one at most one name;    *)
(*  - putting brackets round an accepted query does not change it;         *)
(*  - a printed query reads back as itself.                                *)
(***************************************************************************)
EXTENDS Infix, TLC
CONSTANT N
Vocab == {<<34, 97, 34>>, <<120>>, <<121>>, <<61>>, <<40>>, <<41>>, <<94>>, <<62>>, W_not \o <<32>> \o W_containing,
          W_contained \o <<32>> \o W_in, <<50>>, W_of, <<44>>, <<91, 51, 93>>, W_words}
VARIABLES s, n
vars == <<s, n>>
Init == s = <<>> /\ n = 0
Next == n < N /\ n' = n + 1 /\ \E w \in Vocab : s' = s \o <<32>> \o w
Spec == Init /\ [][Next]_vars
E0 == <<<<<<120>>, [op |-> "t", f |-> <<34, 98, 34>>]>>>>
R == Say(E0, s)
RECURSIVE Show(_), ShowAll(_, _)
Dec(k) == <<48 + k>>
Show(t) == CASE t.op = "t" -> t.f
             [] t.op = "#" -> <<40, 35, 32>> \o Dec(t.n) \o <<41>>
             [] t.op = "nof" -> <<40>> \o Dec(t.n) \o ShowAll(t.x, 1) \o <<41>>
             [] OTHER -> <<40>> \o (CHOOSE x \in OpNames : x[2] = t.op /\ Len(x[1]) <= 3 /\ x[1] # <<60, 62>>)[1] \o ShowAll(t.x, 1) \o <<41>>
ShowAll(xs, j) == IF j > Len(xs) THEN <<>> ELSE <<32>> \o Show(xs[j]) \o ShowAll(xs, j + 1)
Refused == R.ok \/ R.env = E0
OneName == Len(R.env) <= Len(E0) + 1 /\ (R.tree.op # "none" => R.env = E0)
Brackets == (R.ok /\ R.tree.op # "none") => LET b == Say(E0, <<40>> \o s \o <<41>>) IN b.ok /\ b.tree = R.tree
Reads == (R.ok /\ R.tree.op # "none") => Printed(Show(R.tree)) = R.tree
Whole == (R.ok /\ R.env # E0) => \A j \in 1..Len(R.env) : R.env[j][2].op # "none"
=============================================================================
