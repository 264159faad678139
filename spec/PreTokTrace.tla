---------------------------- MODULE PreTokTrace ----------------------------
(* Validates recorded histories of pre-tokenized strings.                    *)
EXTENDS PreTok
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, pt
vars == <<t, i, pt>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ pt = Start(Normalize([k |-> "seq", ps |-> Trace[t].c.norm], From(Trace[t].c.text)))
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Next == /\ i < Len(Steps)
        /\ LET r == PreStep(pt, Steps[i + 1]) IN
           IF i + 1 <= Len(Seen) /\ Seen[i + 1] = [ret |-> r.ret]
           THEN i' = i + 1 /\ pt' = r.pt /\ UNCHANGED t
           ELSE PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> Steps[i + 1].a, exp |-> [ret |-> r.ret]]))
                /\ i' = Len(Steps) + 1 /\ pt' = <<>> /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
