-------------------------- MODULE TrainCountTrace --------------------------
(* Validates recorded trainings from files.                                  *)
EXTENDS TrainCount
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, tk
vars == <<t, i, tk>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ tk = Fresh0(Trace[t].c)
Cs == Trace[t].c
Seen == IF "obs" \in DOMAIN Trace[t].o THEN Trace[t].o.obs ELSE <<>>
Next == /\ i < Len(Cs.runs)
        /\ LET r == TrainRun(Cs, tk, Cs.runs[i + 1], i + 1) IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = [ret |-> r.ret]
           THEN i' = i + 1 /\ tk' = r.tk /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> "train", exp |-> [ret |-> r.ret]]))
                /\ i' = Len(Cs.runs) + 1 /\ UNCHANGED <<t, tk>>
Spec == Init /\ [][Next]_vars
=============================================================================
