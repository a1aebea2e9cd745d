------------------------------- MODULE Params -------------------------------
(***************************************************************************)
(* Parameters of burrows: a burrow keeps a description, a text, of which   *)
(* the parameters are part.  A writing warren keeps what it read when it   *)
(* was opened; clones share it.  Setting rewrites the description (a new   *)
(* file takes the place of the old) and what the warren and its clones     *)
(* keep.  An archive takes the parameters along and is never changed.      *)
(***************************************************************************)
EXTENDS Recipe
VARIABLES desc,   \* burrow -> the text of its parameters
          mem,    \* opening -> parameters kept by it (clones share an opening)
          of,     \* opening -> burrow
          fixed,  \* openings of archives: nothing can be set
          want    \* ghost: burrow -> the parameters as last set
pvars == <<desc, mem, of, fixed, want>>

Get0(m, k) == IF k \in DOMAIN m THEN m[k] ELSE <<>>

PInit == /\ desc = NoMap /\ mem = NoMap /\ of = NoMap /\ fixed = {} /\ want = NoMap
Make(b, m) == /\ b \notin DOMAIN desc
              /\ desc' = Put(desc, b, Freeze(m)) /\ want' = Put(want, b, m) /\ UNCHANGED <<mem, of, fixed>>
Open(g, b) == /\ g \notin DOMAIN of /\ b \in DOMAIN desc
              /\ mem' = Put(mem, g, Cook(desc[b])) /\ of' = Put(of, g, b) /\ UNCHANGED <<desc, fixed, want>>
SetParam(g, k, v) ==
  /\ g \in DOMAIN of /\ g \notin fixed
  /\ LET b == of[g] new == Put(Cook(desc[b]), k, v) IN
     IF Expressible(k, v) THEN /\ desc' = Put(desc, b, Freeze(new)) /\ mem' = Put(mem, g, Put(mem[g], k, v))
                               /\ want' = Put(want, b, Put(want[b], k, v))
     ELSE UNCHANGED <<desc, mem, want>>
  /\ UNCHANGED <<of, fixed>>
\* an archive is made of a burrow by one of its openings, and opened
Archive(g, a, h) ==
  /\ g \in DOMAIN of /\ a \notin DOMAIN desc /\ h \notin DOMAIN of
  /\ desc' = Put(desc, a, Head0(Freeze(mem[g]) \o <<NL>>)) /\ want' = Put(want, a, mem[g])
  /\ mem' = Put(mem, h, Cook(desc'[a])) /\ of' = Put(of, h, a) /\ fixed' = fixed \cup {h}
Crash == /\ mem' = NoMap /\ of' = NoMap /\ fixed' = {} /\ UNCHANGED <<desc, want>>

\* a later opening reads what was last set
Kept == \A b \in DOMAIN desc : Cooks(desc[b]) /\ SameMap(Cook(desc[b]), want[b])
\* and so does every opening for what it set itself, if no other opening set it since
=============================================================================
