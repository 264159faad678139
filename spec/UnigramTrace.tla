---------------------------- MODULE UnigramTrace ----------------------------
(* Validates recorded uses of a Unigram model.                               *)
EXTENDS Unigram
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i
vars == <<t, i>>
Init == t \in 1..Len(Trace) /\ i = 0
Cs == Trace[t].c
Seen == IF "obs" \in DOMAIN Trace[t].o THEN Trace[t].o.obs ELSE <<>>
Next == /\ i < Len(Cs.steps)
        /\ IF i + 1 <= Len(Seen) /\ AcceptsStep(Cs.m, Cs.steps[i + 1], Seen[i + 1])
           THEN i' = i + 1 /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Cs.steps[i + 1].a, exp |-> [ret |-> ShowStep(Cs.m, Cs.steps[i + 1])]]))
                /\ i' = Len(Cs.steps) + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
=============================================================================
