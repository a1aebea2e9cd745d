---------------------------- MODULE ParamsTrace -----------------------------
(***************************************************************************)
(* Trace specification for configuration texts and parameters of the real  *)
(* code; texts are sequences of character codes.                           *)
(*  text:   [k |-> "freeze", m, s, ok, back]  [k |-> "cook", s, ok, back]   *)
(*          [k |-> "opt", m, o, ok, s]  [k |-> "ext", m, o, ok, v]          *)
(*  state:  new; make b ok comp; open g b ok; set g key v ok;              *)
(*          get g key ok v; archive g a; content b v; wrote b; crash;      *)
(*          pending b key v; recipe g s comp; used g key v                 *)
(* A set that a crash interrupted (pending) has happened or has not: the   *)
(* first reading decides.                                                  *)
(***************************************************************************)
EXTENDS Params, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES i, bad, content, maybe
vars == <<pvars, i, bad, content, maybe>>
Has(e, f) == f \in DOMAIN e
Say(e, x) == PrintT(<<"MISMATCH", e.k, x>>) /\ FALSE

RECURSIVE OfPairs(_, _)
OfPairs(l, n) == IF n = 0 THEN NoMap ELSE Put(OfPairs(l, n - 1), l[n][1], l[n][2])
Pairs(l) == OfPairs(l, Len(l))

FreezeOk(e) == LET m == Pairs(e.m) IN
  /\ e.ok /\ SameMap(Pairs(e.back), m) /\ Cooks(e.s) /\ SameMap(Cook(e.s), m)
  /\ Cooks(Joined(e.s)) /\ SameMap(Cook(Joined(e.s)), m)
  /\ Cooks(Head0(e.s \o <<NL>>)) /\ SameMap(Cook(Head0(e.s \o <<NL>>)), m)
CookOk(e) == e.ok = Cooks(e.s) /\ (e.ok => Pairs(e.back) = Cook(e.s))
OptOk(e) == LET x == IF Cooks(e.m) THEN Interpret(Cook(e.m), e.o) ELSE [Refused EXCEPT !.ok = (e.o = <<>>)] IN
  /\ e.ok = x.ok
  /\ e.ok => IF e.o = <<>> THEN e.s = e.m ELSE Cooks(e.s) /\ SameMap(Cook(e.s), x.m)
  /\ ~e.ok => e.s = e.m
ExtOk(e) == LET x == IF Cooks(e.m) THEN Extract(Cook(e.m), e.o) ELSE NoValue IN e.ok = x.ok /\ (e.ok => Same(e.v, x.v))

\* the value found by following names into a recipe
RECURSIVE Inside(_, _, _)
Inside(v, path, n) == IF n > Len(path) THEN v
                      ELSE IF Cooks(v) /\ path[n] \in DOMAIN Cook(v) THEN Inside(Cook(v)[path[n]], path, n + 1) ELSE <<-1>>
ParamsKey == <<112, 97, 114, 97, 109, 101, 116, 101, 114, 115>>

\* a parameter not set reads as one set to nothing
Filled(m) == [k \in {x \in DOMAIN m : m[x] # <<>>} |-> m[k]]

\* what a reading may show: what the opening keeps or what the burrow was last given
Reads(g, key, v) == Same(v, Get0(mem[g], key)) \/ Same(v, Get0(want[of[g]], key))
Undecided(g, key) == <<of[g], key>> \in DOMAIN maybe
Decided(g, key, v) == Undecided(g, key) /\ Same(v, maybe[<<of[g], key>>])

Ok(e) ==
  CASE e.k = "freeze" -> FreezeOk(e) \/ Say(e, <<e.m, "written as", e.s, "read as", e.back>>)
    [] e.k = "cook" -> CookOk(e) \/ Say(e, <<e.s, "read as", e.ok, e.back, "but is", Cooks(e.s), Cook(e.s)>>)
    [] e.k = "opt" -> OptOk(e) \/ Say(e, <<e.m, e.o, e.ok, e.s>>)
    [] e.k = "ext" -> ExtOk(e) \/ Say(e, <<e.m, e.o, e.ok, e.v>>)
    [] e.k \in {"make", "open", "archive"} -> e.ok \/ Say(e, <<"could not be opened", e>>)
    [] e.k = "set" -> e.ok = (e.g \notin fixed /\ Expressible(e.key, e.v)) \/ (e.ok /\ e.g \notin fixed) \/ Say(e, e)
    [] e.k = "get" -> (e.ok /\ (Reads(e.g, e.key, e.v) \/ Decided(e.g, e.key, e.v)))
                      \/ Say(e, <<"key", e.key, "read as", e.v, "was set to", Get0(want[of[e.g]], e.key)>>)
    [] e.k = "used" -> e.v = Get0(want[of[e.g]], e.key) \/ Same(e.v, Get0(want[of[e.g]], e.key)) \/ Decided(e.g, e.key, e.v)
                       \/ Say(e, <<"key", e.key, "in use", e.v, "was set to", Get0(want[of[e.g]], e.key)>>)
    [] e.k = "recipe" -> (/\ Cooks(e.s)
                          /\ \A j \in 1..Len(e.comp) : Inside(e.s, e.comp[j][1], 1) = e.comp[j][2]
                          /\ LET p == Inside(e.s, <<ParamsKey>>, 1) IN
                             \/ Cooks(p) /\ SameMap(Filled(Cook(p)), Filled(mem[e.g]))
                             \/ Cooks(p) /\ SameMap(Filled(Cook(p)), Filled(want[of[e.g]]))
                             \/ maybe # NoMap
                             \/ p = <<-1>> /\ DOMAIN mem[e.g] = {})
                         \/ Say(e, <<e.s, "for", e.comp, mem[e.g]>>)
    [] e.k = "content" -> e.b \notin DOMAIN content \/ content[e.b] = e.v \/ Say(e, <<"content changed", content[e.b], e.v>>)
    [] OTHER -> TRUE

Init == PInit /\ i = 0 /\ bad = 0 /\ content = NoMap /\ maybe = NoMap
Keep == UNCHANGED <<desc, fixed, want, mem, of, content, maybe>>
Apply(e) ==
  CASE e.k = "new" -> /\ desc' = NoMap /\ mem' = NoMap /\ of' = NoMap /\ fixed' = {} /\ want' = NoMap
                      /\ content' = NoMap /\ maybe' = NoMap
    [] e.k = "make" -> want' = Put(want, e.b, Pairs(e.m)) /\ UNCHANGED <<desc, mem, of, fixed, content, maybe>>
    [] e.k = "open" -> /\ mem' = Put(mem, e.g, want[e.b]) /\ of' = Put(of, e.g, e.b)
                       /\ fixed' = IF e.fixed THEN fixed \cup {e.g} ELSE fixed
                       /\ UNCHANGED <<desc, want, content, maybe>>
    [] e.k = "set" -> IF e.ok THEN /\ want' = Put(want, of[e.g], Put(want[of[e.g]], e.key, e.v))
                                   /\ mem' = Put(mem, e.g, Put(mem[e.g], e.key, e.v))
                                   /\ UNCHANGED <<desc, of, fixed, content, maybe>>
                      ELSE Keep
    [] e.k = "get" -> IF Undecided(e.g, e.key)
                      THEN /\ want' = Put(want, of[e.g], Put(want[of[e.g]], e.key, e.v))
                           /\ mem' = Put(mem, e.g, Put(mem[e.g], e.key, e.v))
                           /\ maybe' = NoMap /\ UNCHANGED <<desc, of, fixed, content>>
                      ELSE Keep
    [] e.k = "archive" -> /\ want' = Put(want, e.a, IF e.g = "" THEN want[e.b] ELSE mem[e.g])
                          /\ UNCHANGED <<desc, mem, of, fixed, content, maybe>>
    [] e.k = "pending" -> maybe' = Put(maybe, <<e.b, e.key>>, e.v) /\ UNCHANGED <<desc, mem, of, fixed, want, content>>
    [] e.k = "wrote" -> content' = [b \in DOMAIN content \ {e.b} |-> content[b]] /\ UNCHANGED <<desc, mem, of, fixed, want, maybe>>
    [] e.k = "content" -> content' = Put(content, e.b, e.v) /\ UNCHANGED <<desc, mem, of, fixed, want, maybe>>
    [] OTHER -> Keep
Next == /\ i < Len(Trace) /\ bad = 0
        /\ i' = i + 1
        /\ IF Ok(Trace[i + 1]) THEN bad' = 0 /\ Apply(Trace[i + 1]) ELSE bad' = i + 1 /\ Keep
Spec == Init /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
