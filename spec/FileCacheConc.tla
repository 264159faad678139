--------------------------- MODULE FileCacheConc ---------------------------
(* Calls for one file at the same time, block by block: each looks the file  *)
(* up, asks the server, writes a file of its own and, when that is complete, *)
(* gives it the name in the cache. Checked is that what the name stands for  *)
(* is complete at every moment - a process may be killed at any of them -    *)
(* and that what the calls return is what FileCache allows.                  *)
EXTENDS FileCache, Json, IOUtils
VARIABLES plans, pre, file, st, ret, got, order, dead
vars == <<plans, pre, file, st, ret, got, order, dead>>
Big == IOEnv.TIER = "thorough"
Plan(k, at, v, n) == [name |-> 1, net |-> [k |-> k, at |-> at, code |-> 500], c |-> [v |-> v, n |-> n]]
N1 == 40000
PlansOf(i) == {Plan("ok", 0, i, N1), Plan("cut", 30000, i, N1 + 1), Plan("status", 0, i, N1), Plan("chunk", 0, i, 50), Plan("chunkcut", N1, i, N1)} \cup (IF i = 1 \/ Big THEN {Plan("down", 0, i, N1), Plan("gzip", 0, i, N1), Plan("reset", 20, i, 50)} ELSE {})
Init == /\ \/ plans \in [1..2 -> UNION {PlansOf(i) : i \in 1..3}] /\ \A i \in 1..2 : plans[i] \in PlansOf(i)
           \/ plans \in [1..3 -> UNION {PlansOf(i) : i \in 1..3}] /\ \A i \in 1..3 : plans[i] \in PlansOf(i) /\ (Big \/ plans[i].net.k \in {"ok", "cut"})
        /\ pre \in {None} \cup (IF Len(plans) = 2 THEN {[v |-> 4, n |-> 100]} ELSE {})
        /\ file = pre /\ order = <<>> /\ dead = FALSE
        /\ st = [i \in 1..Len(plans) |-> 0] /\ ret = [i \in 1..Len(plans) |-> [none |-> 0]] /\ got = [i \in 1..Len(plans) |-> 0]
Over(i) == ret[i] # [none |-> 0]
Begin(i) == IF file # None THEN ret' = [ret EXCEPT ![i] = Ok(file)] /\ UNCHANGED <<file, got>> ELSE UNCHANGED <<ret, file, got>>
Half(i) == IF Over(i) THEN UNCHANGED <<ret, file, got>>
           ELSE IF plans[i].net.k \in {"down", "status"} THEN ret' = [ret EXCEPT ![i] = Fails] /\ UNCHANGED <<file, got>>
           ELSE got' = [got EXCEPT ![i] = plans[i].c.n \div 2] /\ UNCHANGED <<ret, file>>
Finish(i) == IF Over(i) THEN UNCHANGED <<ret, file, got>>
             ELSE IF Whole(plans[i].net, plans[i].c) THEN file' = plans[i].c /\ ret' = [ret EXCEPT ![i] = Ok(plans[i].c)] /\ got' = [got EXCEPT ![i] = plans[i].c.n]
             ELSE ret' = [ret EXCEPT ![i] = Fails] /\ got' = [got EXCEPT ![i] = 0] /\ UNCHANGED file
Act(i) == /\ st[i] < 3 /\ ~dead /\ st' = [st EXCEPT ![i] = @ + 1] /\ order' = Append(order, <<i, st[i]>>)
          /\ CASE st[i] = 0 -> Begin(i) [] st[i] = 1 -> Half(i) [] OTHER -> Finish(i)
          /\ UNCHANGED <<plans, pre, dead>>
Die == ~dead /\ dead' = TRUE /\ got' = [i \in DOMAIN got |-> 0] /\ UNCHANGED <<plans, pre, file, st, ret, order>>
Next == Die \/ \E i \in 1..Len(plans) : Act(i)
Spec == Init /\ [][Next]_vars
\* the same calls as a step of FileCache
Par == [a |-> "par", name |-> 1, gets |-> plans, order |-> order]
S0 == [Start EXCEPT !.cache[1][1] = {pre}]
Ended == ~dead /\ \A i \in 1..Len(plans) : st[i] = 3
\* the first of several is enough for the check of three
Complete == file = None \/ file = pre \/ \E i \in 1..Len(plans) : Whole(plans[i].net, plans[i].c) /\ file = plans[i].c
Refines == Ended => LET P == Pars(S0, Par, ret) IN P # {} /\ \A x \in P : file \in x.s.cache[1][1]
\* a file that is there stays what it is unless a call that began before has it again
Kept == pre # None => file = pre
Holds == Complete /\ Refines /\ Kept
Ask(net) == [a |-> "get", name |-> 1, net |-> [k |-> net, at |-> 0, code |-> 404], disk |-> -1, ro |-> 0, kill |-> 0]
Emit == Ended => PrintT("CASE" \o ToJson([op |-> "filecache", steps |->
  (IF pre = None THEN <<>> ELSE <<[a |-> "remote", name |-> 1, c |-> pre], Ask("ok")>>) \o <<Par, Ask("down"), [Ask("down") EXCEPT !.name = 2]>>]))
=============================================================================
