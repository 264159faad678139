--------------------------- MODULE PipelineTrace ---------------------------
(* Validates recorded histories of tokenizers.                               *)
EXTENDS Pipeline
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, tk
vars == <<t, i, tk>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ tk = Assemble(Trace[t].c.c)
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET exp == PipeRet(tk, Steps[i + 1]) IN
           IF (IF i + 1 <= Len(Seen) THEN AgreesStep(Steps[i + 1], exp, Seen[i + 1]) ELSE FALSE)
           THEN i' = i + 1 /\ tk' = PipeNext(tk, Steps[i + 1]) /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> [ret |-> exp]]))
                /\ i' = Len(Steps) + 1 /\ tk' = <<>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
