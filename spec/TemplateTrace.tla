--------------------------- MODULE TemplateTrace ---------------------------
(* Validates recorded histories of the template builder.                     *)
EXTENDS Template, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, b
vars == <<t, i, b>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ b = Fresh
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET r == Took(b, Steps[i + 1]) IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = r.ret
           THEN i' = i + 1 /\ b' = r.b /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> r.ret]))
                /\ i' = Len(Steps) + 1 /\ b' = b /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
