-------------------------- MODULE WordModelsTrace --------------------------
(* Validates recorded uses of the models that look words up.                 *)
EXTENDS WordModels
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
vars == <<t, i>>
Init == t \in 1..Len(Trace) /\ i = 0
Cs == Trace[t].c
Seen == IF "obs" \in DOMAIN Trace[t].o THEN Trace[t].o.obs ELSE <<>>
Next == /\ i < Len(Cs.steps)
        /\ LET x == RetOf(Cs, Made(Cs), Cs.steps[i + 1]) IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = [ret |-> x]
           THEN i' = i + 1 /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Cs.steps[i + 1].a, exp |-> [ret |-> x]]))
                /\ i' = Len(Cs.steps) + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
