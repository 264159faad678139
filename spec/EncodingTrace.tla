--------------------------- MODULE EncodingTrace ---------------------------
(* Validates histories recorded from the real code: every recorded step must *)
(* be the step the encoding machine takes.                                   *)
EXTENDS Encoding, Json, IOUtils

Trace == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES t, i, slots
vars == <<t, i, slots>>

Init == t \in 1..Len(Trace) /\ i = 0 /\ slots = Trace[t].c.init

Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Matches(r, n) == /\ n <= Len(Seen)
                 /\ "panic" \notin DOMAIN Seen[n]
                 /\ Seen[n].slots = r.slots
                 /\ Seen[n].ret = r.ret
Bad(n, s, r) == PrintT("MISMATCH" \o ToJson([t |-> t, step |-> n, what |-> s.a, exp |-> r]))
Next == /\ i < Len(Steps)
        /\ LET r == Apply(slots, Steps[i + 1]) IN
           IF Matches(r, i + 1)
           THEN i' = i + 1 /\ slots' = r.slots /\ UNCHANGED t
           ELSE Bad(i + 1, Steps[i + 1], r) /\ i' = Len(Steps) + 1 /\ slots' = <<>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
