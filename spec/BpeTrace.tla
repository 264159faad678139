------------------------------ MODULE BpeTrace ------------------------------
(* Validates recorded histories of BPE models.                               *)
EXTENDS Bpe
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, c
vars == <<t, i, c>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ c = NewCache(Trace[t].c.model.cap)
Steps == Trace[t].c.steps
Seen == IF "obs" \in DOMAIN Trace[t].o THEN Trace[t].o.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET R == BpeRets(Trace[t].c.model, c, Steps[i + 1]) IN
           IF i + 1 <= Len(Seen) /\ "ret" \in DOMAIN Seen[i + 1] /\ Seen[i + 1].ret \in R
           THEN i' = i + 1 /\ c' = BpeNext(Trace[t].c.model, c, Steps[i + 1]) /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> [ret |-> CHOOSE x \in R : TRUE]]))
                /\ i' = Len(Steps) + 1 /\ UNCHANGED <<t, c>>
Spec == Init /\ [][Next]_vars
============================================================================
