------------------------------ MODULE MCParams ------------------------------
EXTENDS Params, TLC
CONSTANT MaxSteps
VARIABLES n, last   \* last: <<burrow, key>> -> the opening that set it last
vars == <<pvars, n, last>>
Ks == {<<97>>, <<98>>, <<>>}
Vs == {<<>>, <<DQ, 97, DQ>>, <<97, NL, NL, 98>>, <<BS>>, <<OB, CB>>, <<OB, 97, COLON, DQ, BS, DQ, DQ, CB>>, <<0>>}
Bs == {1, 2}
Gs == {1, 2, 3}
Init == PInit /\ n = 0 /\ last = NoMap
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ Make(1, NoMap) /\ last' = last
           \/ \E g \in Gs, b \in Bs : Open(g, b) /\ last' = last
           \/ \E g \in Gs, k \in Ks, v \in Vs :
                /\ SetParam(g, k, v)
                /\ last' = IF Expressible(k, v) THEN Put(last, <<of[g], k>>, g) ELSE last
           \/ \E g \in Gs, h \in Gs : Archive(g, 2, h) /\ last' = last
           \/ Crash /\ last' = NoMap
Spec == Init /\ [][Next]_vars
Own == \A x \in DOMAIN last : last[x] \in DOMAIN mem => Get0(mem[last[x]], x[2]) = Get0(want[x[1]], x[2])
Alone == \A x \in DOMAIN last, y \in DOMAIN last :
           x[1] = y[1] /\ last[x] \in DOMAIN mem /\ (\A g \in DOMAIN of : of[g] = x[1] => g = last[x]) => SameMap(mem[last[x]], want[x[1]])
=============================================================================
