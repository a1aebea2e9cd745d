------------------------------ MODULE TextTrace ------------------------------
(* Histories of a burrow holding arbitrary bytes: how each appended piece falls into units is decided by Tokens,
   everything else by Store.  One character of a string stands for one byte. *)
EXTENDS StoreTrace, Tokens
Table == JsonDeserialize(IOEnv.CLASSES)
TrClass(c) == LET k == ToString(c) IN IF k \in DOMAIN Table THEN Table[k][1] ELSE "no"
TrFold(c, b) == b

\* the piece as it is stored, and where its units start
Stored(b) == IF b = <<>> \/ b[Len(b)] \in {9, 10, 32} THEN b ELSE Append(b, 10)
Starts(e) ==
  LET cut == Cut(Stored(e.b), e.kind) IN
  /\ Len(cut) = Len(e.units)
  /\ FoldLeft(LAMBDA acc, k : <<acc[1] /\ cut[k][1] = acc[2], acc[2] + Len(e.units[k])>>,
              <<TRUE, Len(e.lead)>>, [k \in 1..Len(cut) |-> k]) = <<TRUE, Len(e.b)>>

TNext ==
  /\ Next
  /\ LET e == Trace[i + 1] IN
     (e.k = "app" /\ "b" \in DOMAIN e) => Assert(Starts(e), <<"the generator cut this wrongly", i + 1, e>>)
TSpec == Spec0 /\ [][TNext]_vars
=============================================================================
