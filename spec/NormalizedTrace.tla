-------------------------- MODULE NormalizedTrace --------------------------
(* Validates recorded histories of normalized strings.                       *)
EXTENDS Normalized
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, n
vars == <<t, i, n>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ n = From(Trace[t].c.text)
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET r == Step(n, Steps[i + 1])
               e == [n |-> View(r.n), ret |-> r.ret] IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = e
           THEN i' = i + 1 /\ n' = r.n /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> e]))
                /\ i' = Len(Steps) + 1 /\ n' = <<>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
