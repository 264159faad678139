---------------------------- MODULE ConfigTrace ----------------------------
(* Validates recorded loads of configurations: first whether the document is *)
(* loaded, then what the tokenizer answers.                                  *)
EXTENDS Config
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, tk
vars == <<t, i, tk>>
Init == t \in 1..Len(Trace) /\ i = -1 /\ tk = <<>>
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
Stop == i' = Len(Steps) + 1 /\ tk' = <<>> /\ UNCHANGED t
Miss(what, exp) == PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 2, what |-> what, exp |-> exp])) /\ Stop
LoadStep ==
  LET v == Verdict(Trace[t].c.doc)
      o == IF Len(Seen) > 0 THEN Seen[1] ELSE [none |-> 0]
      fine == "ret" \in DOMAIN o
  IN IF ~fine THEN Miss("load", [verdict |-> v])
     ELSE IF v = 1 THEN Stop
     ELSE IF o.ret.err # v \div 2 THEN Miss("load", [verdict |-> v])
     ELSE IF v = 2 THEN Stop
     ELSE i' = 0 /\ tk' = Assemble(Described(Trace[t].c.doc)) /\ UNCHANGED t
AskStep ==
  LET s == Steps[i + 1]  exp == PipeRet(tk, s) IN
  IF (IF i + 2 <= Len(Seen) THEN AgreesStep(s, exp, Seen[i + 2]) ELSE FALSE)
  THEN i' = i + 1 /\ tk' = PipeNext(tk, s) /\ UNCHANGED t
  ELSE Miss(s.a, [ret |-> exp])
Next == IF i = -1 THEN LoadStep ELSE i < Len(Steps) /\ AskStep
Spec == Init /\ [][Next]_vars
============================================================================
