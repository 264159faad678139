-------------------------- MODULE AddedVocabTrace --------------------------
(* Validates recorded histories of a tokenizer with added tokens.            *)
EXTENDS AddedVocab
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, av
vars == <<t, i, av>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ av = NewVocab(Trace[t].c.model, Trace[t].c.w)
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET r == AvStep(av, Steps[i + 1]) IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = [ret |-> r.ret]
           THEN i' = i + 1 /\ av' = r.av /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> [ret |-> r.ret]]))
                /\ i' = Len(Steps) + 1 /\ av' = <<>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
