---------------------------- MODULE InfixTrace ----------------------------
(***************************************************************************)
(* Trace specification for infix sessions.  An event is a session:         *)
(*  [says |-> <<[m, s, ok, str, hop]>>]                                    *)
(* m names the session's interpreter (1 or 2, each with its own            *)
(* definitions), s is the text said, str the parenthesised form returned,  *)
(* hop whether that form is itself accepted as a query.                    *)
(***************************************************************************)
EXTENDS Infix, TLC, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLE i, bad
vars == <<i, bad>>
RECURSIVE HasNof(_)
HasNof(t) == CASE t.op = "nof" -> TRUE
               [] t.op \in {"t", "#", "none"} -> FALSE
               [] t.op \in {"+", "^"} -> \E y \in t.s : HasNof(y)
               [] OTHER -> \E j \in 1..Len(t.x) : HasNof(t.x[j])
RECURSIVE Session(_, _, _)
Session(ss, n, envs) ==
  IF n > Len(ss) THEN TRUE
  ELSE LET a == ss[n]  r == Say(envs[a.m], a.s) IN
    /\ \/ a.ok = r.ok
       \/ (PrintT(<<"MISMATCH", n, IF a.ok THEN "accepted" ELSE "refused", a.s>>) /\ FALSE)
    /\ \/ ~r.ok
       \/ LET t == Norm(r.tree)  u == Printed(a.str) IN
          \/ u.op # "junk" /\ Norm(u) = t /\ (a.hop = TRUE \/ t.op = "none" \/ HasNof(t))
          \/ (PrintT(<<"MISMATCH", n, "said", a.s, "denotes", t, "returned", a.str, a.hop>>) /\ FALSE)
    /\ Session(ss, n + 1, [envs EXCEPT ![a.m] = r.env])
Ok(e) == Session(e.says, 1, <<<<>>, <<>>>>)
Init == i = 0 /\ bad = 0
Next == /\ i < Len(Trace) /\ bad = 0
        /\ i' = i + 1
        /\ bad' = IF Ok(Trace[i + 1]) THEN 0 ELSE i + 1
Spec == Init /\ [][Next]_vars
Accepted == bad = 0 \/ (PrintT("REJECTED at " \o ToString(bad)) /\ FALSE)
Complete == TLCGet("stats").diameter = Len(Trace) + 1
===========================================================================
