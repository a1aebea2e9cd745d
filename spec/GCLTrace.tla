------------------------------ MODULE GCLTrace ------------------------------
(***************************************************************************)
(* Trace specification: every recorded event is one cursor (or several     *)
(* over the same lists) with the questions asked of it, in order, and the  *)
(* implementation's answers.                                               *)
(*  [lists |-> [f |-> list], qs |-> <<[ast, calls, rs]>>]                  *)
(***************************************************************************)
EXTENDS GCL, TLC, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i, bad
vars == <<i, bad>>

QOk(q, lists) ==
  LET d == Den(q.ast, lists) IN
  /\ Len(q.rs) = Len(q.calls)
  /\ \A j \in 1..Len(q.calls) :
       \/ Agrees(Ask(d, q.calls[j][1], q.calls[j][2]), q.rs[j])
       \/ /\ PrintT(<<"MISMATCH", q.ast, "denotes", d, "call", j, q.calls[j], "got", q.rs[j]>>)
          /\ FALSE
Ok(e) == \A n \in 1..Len(e.qs) : QOk(e.qs[n], e.lists)

Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace) /\ bad = 0
        /\ i' = i + 1
        /\ bad' = IF Ok(Trace[i + 1]) THEN 0 ELSE i + 1
Spec == Init /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
