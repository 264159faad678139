---------------------------- MODULE PresetsTrace ----------------------------
(* Validates recorded histories of ready-made tokenizers.                    *)
EXTENDS Presets
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, tks
vars == <<t, i, tks>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ tks = PresetStart
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET s == Steps[i + 1]  exp == PresetRet(tks, s) IN
           IF (IF i + 1 <= Len(Seen) THEN PresetAgrees(s, exp, Seen[i + 1]) ELSE FALSE)
           THEN i' = i + 1 /\ tks' = PresetNext(Trace[t].c.files, tks, s) /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> s.a, exp |-> [ret |-> exp]]))
                /\ i' = Len(Steps) + 1 /\ tks' = PresetStart /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
