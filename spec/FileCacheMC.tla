---------------------------- MODULE FileCacheMC ----------------------------
(* Histories of one process after another on the file cache: lookups under   *)
(* every fault, changes of the sources, cleaning. Then all names are looked  *)
(* up without a network.                                                     *)
EXTENDS FileCache, Json, IOUtils
VARIABLES s, hist, obs, last
vars == <<s, hist, obs, last>>
Big == IOEnv.TIER = "thorough"
C1 == [v |-> 1, n |-> 40000]
Ask(x, k, at, disk, ro) == [a |-> "get", name |-> x, net |-> [k |-> k, at |-> at, code |-> 503], disk |-> disk, ro |-> ro, kill |-> 0]
Looks(x) ==
  {Ask(x, k, 0, -1, 0) : k \in {"ok", "down", "status", "gzip", "redirect", "eof", "chunk"}}
  \cup {Ask(x, "cut", n, -1, 0) : n \in {0, 39999}} \cup {Ask(x, "chunkcut", 40000, -1, 0), Ask(x, "gzcut", 20000, -1, 0), Ask(x, "reset", 20000, -1, 0), Ask(x, "stall", 20000, -1, 0), Ask(x, "stall", 40000, -1, 0)}
  \cup {Ask(x, "ok", 0, d, 0) : d \in {3, 100, 39999, 40001}} \cup {Ask(x, "ok", 0, -1, 1)}
Local(x, k, v, n) == [a |-> "local", name |-> x, k |-> k, c |-> [v |-> v, n |-> n]]
Others == {Local(1, 1, 2, 5000), Local(1, 2, 2, 40000), Local(1, 3, 3, 50), Local(1, 0, 0, -1), [a |-> "remote", name |-> 1, c |-> [v |-> 4, n |-> 50000]], [a |-> "remote", name |-> 1, c |-> [v |-> 0, n |-> 0]],
           [a |-> "clean"], [a |-> "fresh", k |-> 0], [a |-> "fresh", k |-> 2]}
Choices == Looks(1) \cup {Ask(2, "ok", 0, -1, 0), Ask(2, "down", 0, -1, 0)} \cup Others
Final == <<Ask(1, "down", 0, -1, 0), Ask(2, "down", 0, -1, 0)>>
First == [a |-> "remote", name |-> 1, c |-> C1]
Init == s = [Start EXCEPT !.remote[1] = C1] /\ hist = <<First>> /\ obs = <<[ret |-> [err |-> 0]]>> /\ last = 0
Take1(st) == \E o \in Outcomes(s, st) : s' = o.s /\ hist' = Append(hist, st) /\ obs' = Append(obs, [ret |-> o.ret])
Next == \/ last = 0 /\ Len(hist) < (IF Big THEN 4 ELSE 3) /\ (\E st \in Choices : Take1(st)) /\ last' = 0
        \/ last < 2 /\ Len(hist) > 1 /\ Take1(Final[last + 1]) /\ last' = last + 1
Spec == Init /\ [][Next]_vars
Emit == last = 2 => PrintT("CASE" \o ToJson([op |-> "filecache", steps |-> hist, exp |-> [obs |-> obs]]))
----------------------------------------------------- \* property predicates
Given(x) == {C1} \cup {hist[j].c : j \in {i \in 1..Len(hist) : IF hist[i].a \in {"remote", "local"} THEN hist[i].name = x ELSE FALSE}}
\* what is returned and what is kept is all of some source
Whole1 == /\ \A i \in 1..Len(obs) : "c" \in DOMAIN obs[i].ret => obs[i].ret.c \in Given(hist[i].name)
          /\ \A d \in 1..2, x \in Names : s.cache[d][x] \subseteq {None} \cup Given(x)
\* one thing happens
Sure == \A d \in 1..2, x \in Names : Cardinality(s.cache[d][x]) = 1
\* a source that can be read is found
Found == \A i \in 1..Len(obs) : hist[i].a = "get" => IF hist[i].name = 1 /\ hist[i].net.k \in {"ok", "gzip", "eof"} /\ hist[i].disk = -1 /\ hist[i].ro = 0 THEN ("c" \in DOMAIN obs[i].ret \/ s.local[1].k = 2 \/ \E j \in 1..i : hist[j].a = "local") ELSE TRUE
Holds == Whole1 /\ Sure /\ Found
=============================================================================
