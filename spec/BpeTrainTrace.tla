--------------------------- MODULE BpeTrainTrace ---------------------------
(* Validates recorded trainings, one merge of the specification at a time.   *)
EXTENDS BpeTrain
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, st
vars == <<t, st>>
Init == t \in 1..Len(Trace) /\ st = Started(Trace[t].c.o)
Exp == Outcome(st, Trace[t].c.toks)
Next == /\ st # <<>>
        /\ IF More(st) THEN st' = MergeOnce(st)
           ELSE st' = <<>> /\ IF Trace[t].o = Exp THEN TRUE ELSE PrintT("MISMATCH" \o ToJson([t |-> t, what |-> "train", exp |-> Exp]))
        /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
============================================================================
