--------------------------- MODULE FileCacheTrace ---------------------------
(* Validates recorded histories of the file cache: at every step what is     *)
(* seen must follow from one of the states that are possible.                *)
EXTENDS FileCache, Json, IOUtils
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, i, poss
vars == <<t, i, poss>>
Init == t \in 1..Len(Trace) /\ i = 0 /\ poss = {Start}
Steps == Trace[t].c.steps
Obs == Trace[t].o
Seen == IF "obs" \in DOMAIN Obs THEN Obs.obs ELSE <<>>
\* answers have different fields
Same(x, y) == DOMAIN x = DOMAIN y /\ (IF "c" \in DOMAIN x THEN x.err = y.err /\ x.c = y.c ELSE x = y)
After(s, st, o) ==
  IF st.a = "par" THEN (IF "rets" \in DOMAIN o THEN Pars(s, st, o.rets) ELSE {})
  ELSE {x \in Outcomes(s, st) : Same(x.ret, o)}
Step1 ==
  LET st == Steps[i + 1]
      o == IF i + 1 <= Len(Seen) THEN (IF "ret" \in DOMAIN Seen[i + 1] THEN Seen[i + 1].ret ELSE [none |-> 0]) ELSE [none |-> 0]
      next == UNION {{x.s : x \in After(s, st, o)} : s \in poss}
  IN IF next # {} THEN i' = i + 1 /\ poss' = next /\ UNCHANGED t
     ELSE /\ PrintT("MISMATCH" \o ToJson([t |-> t, step |-> i + 1, what |-> st.a, exp |-> [ret |-> IF st.a = "par" THEN [served |-> UNION {Served(s, st) : s \in poss}] ELSE (CHOOSE x \in Outcomes(CHOOSE s \in poss : TRUE, st) : TRUE).ret]]))
          /\ i' = Len(Steps) + 1 /\ UNCHANGED <<t, poss>>
Next == i < Len(Steps) /\ Step1
Spec == Init /\ [][Next]_vars
=============================================================================
