---------------------------- MODULE TrainCountMC ----------------------------
(* Every set of small files, every size of the pieces, and every order in    *)
(* which the workers hand over what they counted.                            *)
EXTENDS TrainCount
VARIABLES c, tk, left, dict, rets
vars == <<c, tk, left, dict, rets>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  sp == 32  eac == 233
File(s) == [miss |-> 0, c |-> s, rep |-> 1]
Missing == [miss |-> 1, c |-> <<>>, rep |-> 1]
Ws == [k |-> "wssplit"]
Case(chunk, norm, pre, bad, runs) == [op |-> "count", vocab |-> IF Len(runs) = 1 THEN <<[t |-> <<91, 65, 93>>, id |-> 0]>> ELSE <<>>, chunk |-> chunk, norm |-> norm, pre |-> pre, bad |-> bad, runs |-> runs]
Run1(fs, s) == [files |-> fs, special |-> s, vocab |-> <<>>]
RunV(fs, s, v) == [files |-> fs, special |-> s, vocab |-> v]
Texts == SeqsUpTo({a, LF, sp}, IF Big THEN 5 ELSE 4) \cup SeqsUpTo({b, LF, CR}, IF Big THEN 4 ELSE 3) \cup {<<eac, LF, a, eac, sp, a, LF>>, <<a, LF, LF, a, sp, a, CR, LF, b>>, <<a, a, a, a, a, LF, b, b>>}
Few == {<<>>, <<LF>>, <<a>>, <<a, LF>>, <<a, LF, b, sp, a>>, <<b, sp, LF, LF, a, CR, LF>>}
SpecialA == <<91, 65, 93>>  SpecialB == <<91, 66, 93>>
Cases ==
  {Case(k, <<>>, <<Ws>>, <<>>, <<Run1(<<File(t)>>, <<SpecialA>>)>>) : k \in {1, 2, 3, 5, 100}, t \in Texts}
  \cup {Case(k, <<[k |-> "lower"]>>, <<p>>, <<>>, <<Run1(<<File(t), File(u)>>, <<>>)>>) : k \in {1, 2, 100}, p \in {Ws, [k |-> "ws"], [k |-> "seq", ps |-> <<>>]}, t \in Few \cup {<<65, LF, a>>}, u \in Few}
  \cup {Case(2, <<>>, pre, bad, <<Run1(fs, <<SpecialA>>), Run1(<<File(<<a, LF, a>>)>>, <<SpecialB, SpecialA, <<>>>>), Run1(gs, <<SpecialB>>)>>) :
          pre \in {<<>>, <<Ws>>}, bad \in {<<>>, <<b>>}, fs \in {<<>>, <<File(<<>>)>>, <<File(<<b>>), File(<<a>>)>>, <<Missing>>, <<File(<<a>>), Missing>>}, gs \in {<<File(<<a, b, LF, a, LF, LF, b>>)>>, <<Missing, File(<<a>>)>>, <<>>}}
  \cup {Case(k, <<>>, <<Ws>>, <<>>, <<Run1(<<File(t), File(u), File(t)>>, <<>>)>>) : k \in {2, 4, 100}, t \in Few, u \in {<<>>, <<a, b, LF, b>>, <<LF, a>>}}
  \cup {Case(100, <<>>, <<Ws>>, <<>>, <<RunV(fs, <<SpecialA, SpecialB>>, v)>>) : fs \in {<<File(<<a>>)>>, <<Missing>>},
          v \in {<<>>, <<[t |-> SpecialA, id |-> 0]>>, <<[t |-> <<a>>, id |-> 0], [t |-> SpecialB, id |-> 2]>>, <<[t |-> <<a>>, id |-> 0], [t |-> <<b>>, id |-> 1]>>}}

\* what the workers of a training still have to read
WorkOf(cs, i) == IF i > Len(cs.runs) \/ \E j \in 1..Len(cs.runs[i].files) : cs.runs[i].files[j].miss = 1 THEN <<>>
                 ELSE Flatten([j \in 1..Len(cs.runs[i].files) |-> LET w == Workers(cs.runs[i].files[j], cs.chunk) IN [n \in 1..Len(w) |-> [m \in 1..Len(w[n]) |-> w[n][m].t]]])
Init == /\ c \in Cases /\ tk = Fresh0(c) /\ rets = <<>> /\ dict = [d |-> Zero, err |-> 0] /\ left = WorkOf(c, 1)
I == Len(rets) + 1
Done2 == I > Len(c.runs)
\* a worker reads its next line: the counts are added up, or the training fails and the worker stops
Read == /\ ~Done2 /\ UNCHANGED <<c, tk, rets>>
        /\ \E k \in 1..Len(left) :
             /\ left[k] # <<>>
             /\ IF Refused(c, Head(left[k]))
                THEN dict' = [dict EXCEPT !.err = 1] /\ left' = [left EXCEPT ![k] = <<>>]
                ELSE dict' = [dict EXCEPT !.d = AddWords(@, PiecesOf(c, Head(left[k])), 1)] /\ left' = [left EXCEPT ![k] = Tail(@)]
\* all workers are done
Finish == /\ ~Done2 /\ \A k \in 1..Len(left) : left[k] = <<>>
          /\ LET err == IF dict.err = 1 \/ \E j \in 1..Len(c.runs[I].files) : c.runs[I].files[j].miss = 1 THEN 1 ELSE 0
                 n == IF err = 1 THEN tk ELSE Trained(tk, c.runs[I], I)
             IN tk' = n /\ rets' = Append(rets, Ret(n, err, dict.d))
          /\ dict' = [d |-> Zero, err |-> 0] /\ left' = WorkOf(c, I + 1) /\ UNCHANGED c
Next == Read \/ Finish
Spec == Init /\ [][Next]_vars
Emit == Done2 => PrintT("CASE" \o ToJson([op |-> c.op, vocab |-> c.vocab, chunk |-> c.chunk, norm |-> c.norm, pre |-> c.pre, bad |-> c.bad, runs |-> c.runs, exp |-> [obs |-> [i \in 1..Len(rets) |-> [ret |-> rets[i]]]]]))
\* however the workers ran, the outcome is that of reading the files one line after the other
RECURSIVE After(_, _)
After(n, i) == IF n = 0 THEN Fresh0(c) ELSE TrainRun(c, After(n - 1, i), c.runs[n], n).tk
Holds == /\ rets # <<>> => LET n == Len(rets) IN rets[n] = TrainRun(c, After(n - 1, 0), c.runs[n], n).ret
         /\ \A i \in 1..Len(c.runs) : \A j \in 1..Len(c.runs[i].files) :   \* the workers share the lines between them
              LET f == c.runs[i].files[j]  w == Workers(f, c.chunk) IN Flatten([k \in 1..Len(w) |-> w[k]]) = Lines(f.c)
=============================================================================
