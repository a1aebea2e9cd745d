------------------------------ MODULE MCCache ------------------------------
(* Three pieces, one of them archived and one of them hiding an item of another. *)
EXTENDS Cache
P(id, ar, a, b, e) == [id |-> id, archived |-> ar, lists |-> [f \in {"a", "b", E} |-> IF f = "a" THEN a ELSE IF f = "b" THEN b ELSE e]]
MCInitial == <<P(1, TRUE, <<1>>, <<2>>, <<>>), P(2, FALSE, <<3>>, <<>>, <<1>>)>>
MCAdded == <<P(3, FALSE, <<5>>, <<6>>, <<3>>), P(4, TRUE, <<7>>, <<>>, <<>>)>>
MCInitial3 == MCInitial \o <<P(5, TRUE, <<8, 9>>, <<10>>, <<9>>)>>
=============================================================================
