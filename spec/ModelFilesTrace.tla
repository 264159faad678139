--------------------------- MODULE ModelFilesTrace ---------------------------
(* Validates recorded histories of model files.                              *)
EXTENDS ModelFiles
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, fs
vars == <<t, i, fs>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ fs = Empty
Cs == Trace[t].c
Seen == IF "obs" \in DOMAIN Trace[t].o THEN Trace[t].o.obs ELSE <<>>
Next == /\ i < Len(Cs.steps)
        /\ LET s == Cs.steps[i + 1]  x == FRet(Cs, fs, s) IN
           IF ~Readable(Cs, fs, s) \/ (i + 1 <= Len(Seen) /\ Seen[i + 1] = [ret |-> x])
           THEN i' = i + 1 /\ fs' = FNext(Cs, fs, s) /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Cs.kind \o " " \o s.a, exp |-> [ret |-> x]]))
                /\ i' = Len(Cs.steps) + 1 /\ UNCHANGED <<t, fs>>
Spec == Init /\ [][Next]_vars
==============================================================================
