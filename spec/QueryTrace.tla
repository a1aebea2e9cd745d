---------------------------- MODULE QueryTrace ----------------------------
(***************************************************************************)
(* Trace specification for query texts.                                    *)
(*  [k |-> "parse", s, ok, str, bin]   parsing and printing                *)
(*  [k |-> "hop", s, ok, tbl, sp, asks |-> <<[calls, rs]>>]  evaluation,   *)
(*     with the optimizer off and on, of the query the text denotes        *)
(***************************************************************************)
EXTENDS QueryText, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i, bad
vars == <<i, bad>>

ParseOk(e) ==
  LET t == Parse(e.s) IN
  IF t = NoQuery THEN e.ok = FALSE \/ (PrintT(<<"MISMATCH", "malformed text accepted", e.s>>) /\ FALSE)
  ELSE \/ e.ok /\ Parse(e.str) = t /\ Binary(Parse(e.bin)) = Binary(t) /\ Parse(e.bin) = Binary(t)
       \/ (PrintT(<<"MISMATCH", "text", e.s, "denotes", t, "printed", Parse(e.str), "binary", Parse(e.bin)>>) /\ FALSE)

HopOk(e) ==
  LET t == Parse(e.s) IN
  IF t = NoQuery THEN e.ok = FALSE \/ (PrintT(<<"MISMATCH", "malformed query evaluated", e.s>>) /\ FALSE)
  ELSE LET d == TDen(t, e.tbl, e.sp) IN
    /\ e.ok \/ (PrintT(<<"MISMATCH", "well-formed query refused", t>>) /\ FALSE)
    /\ \A n \in 1..Len(e.asks) : LET a == e.asks[n] IN
        /\ Len(a.rs) = Len(a.calls)
        /\ \A j \in 1..Len(a.calls) :
            \/ Agrees(Ask(d, a.calls[j][1], a.calls[j][2]), a.rs[j])
            \/ (PrintT(<<"MISMATCH", t, "denotes", d, "call", j, a.calls[j], "got", a.rs[j], "asked as", a.how>>) /\ FALSE)
        /\ \/ a.walk = <<>> /\ d = <<>>
           \/ Len(a.walk) = Len(d) /\ \A j \in 1..Len(d) : Agrees(d[j], a.walk[j])
           \/ (PrintT(<<"MISMATCH", t, "denotes", d, "walked", a.walk, "asked as", a.how>>) /\ FALSE)
Ok(e) == IF e.k = "parse" THEN ParseOk(e) ELSE HopOk(e)

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace) /\ bad = 0
        /\ i' = i + 1
        /\ bad' = IF Ok(Trace[i + 1]) THEN 0 ELSE i + 1
Spec == Init /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
===========================================================================
