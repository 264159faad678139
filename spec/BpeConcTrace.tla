---------------------------- MODULE BpeConcTrace ----------------------------
(* Recorded concurrent histories of the cache and of a model with a cache.   *)
(* h[thread][i] = [from, to, ret]. A history is explained by a sequential    *)
(* order of its operations that keeps the order of those that did not        *)
(* overlap; TLC searches all of them.                                        *)
EXTENDS Bpe
Trace == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES t, done, c
vars == <<t, done, c>>
Cs == Trace[t].c
H == Trace[t].h
OfModel == Cs.op = "bpeconc"
Init == t \in 1..Len(Trace) /\ done = [j \in 1..Len(Trace[t].h) |-> 0] /\ c = NewCache(IF "cap" \in DOMAIN Trace[t].c THEN Trace[t].c.cap ELSE Trace[t].c.model.cap)
\* an operation may come next if none of the others ended before it began
May(th) == /\ done[th] < Len(H[th])
           /\ \A j \in 1..Len(H) : done[j] < Len(H[j]) => H[j][done[j] + 1].to >= H[th][done[th] + 1].from
Next == \E th \in 1..Len(H) :
  /\ May(th)
  /\ LET s == Cs.threads[th][done[th] + 1]
         o == H[th][done[th] + 1].ret
     IN /\ "ret" \in DOMAIN o
        /\ IF OfModel THEN o.ret \in BpeRets(Cs.model, c, s) /\ c' = BpeNext(Cs.model, c, s)
           ELSE o.ret = CacheStep(c, s).ret /\ c' = CacheStep(c, s).c
  /\ done' = [done EXCEPT ![th] = @ + 1]
  /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Emit == (\A j \in 1..Len(H) : done[j] = Len(H[j])) => PrintT("DONE" \o ToJson([t |-> t]))
============================================================================
