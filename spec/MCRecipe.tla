------------------------------ MODULE MCRecipe ------------------------------
(* every text over a few telling characters, as a value at several depths and as a recipe itself *)
EXTENDS Recipe, TLC
CONSTANTS Chars, N, Prefix
VARIABLE t
None0 == <<>>
Open0 == <<OB, 97, COLON>>
Opt0 == <<97, COLON>>
Init == t = Prefix
Next == Len(t) < N /\ \E c \in Chars : t' = Append(t, c)
Spec == Init /\ [][Next]_t

K == <<97>>
L == <<98>>
One(v) == Put(NoMap, K, v)
Two(v) == Put(Put(NoMap, K, v), L, v)
ValueOk == /\ RoundTrip(One(t))
           /\ RoundTrip(Two(Freeze(One(t))))
           /\ RoundTrip(One(Freeze(Two(Freeze(One(t))))))
\* what was written twice stays what it was
Stable == Cooks(t) => LET m == Cook(t) u == Freeze(m) IN SameMap(Cook(u), m) /\ Same(t, u) /\ Freeze(Cook(u)) = u
\* an option changes the setting it names and no other
Base == Put(Put(NoMap, K, Freeze(Put(Put(NoMap, NameKey, L), RecipeKey, Freeze(Two(L))))), L, K)
OptionOk == LET x == Interpret(Base, t) p == Pieces(t, COLON) IN
  x.ok => /\ \A k \in DOMAIN Base : k # K => x.m[k] = Base[k]
          /\ RoundTrip(x.m)
          /\ t # <<>> /\ Len(Pieces(t, AT)) # 2 /\ p[1] = K =>
               /\ Len(p) = 3 => Same(Extract(x.m, K \o <<COLON>> \o p[2]).v, p[3])
               /\ Len(p) = 2 => Same(Extract(x.m, K).v, p[2])
=============================================================================
