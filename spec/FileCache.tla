----------------------------- MODULE FileCache -----------------------------
(* The local file cache: CachedPath(model, file) returns the place of a file *)
(* of the cache, filling it from a local file or by a download.              *)
(* A content is [v, n], the n bytes of version v; n = -1 is no file. Where   *)
(* a process is killed, or calls run at the same time, several things may    *)
(* have happened: the cache holds, for every name, one of a set of contents. *)
(*   dir     which of two cache directories is in use                        *)
(*   cache   for both, and every name, the contents it may have              *)
(*   local   local files, [k, c]: k = 0 none, 1 or 3 readable, 2 not         *)
(*   remote  what the server has                                             *)
(*   tried   names that were asked for                                       *)
EXTENDS Util
None == [v |-> 0, n |-> -1]
Names == 1..7
\* the file of name 5 is in a directory with the name of file 1
Rival(x) == CASE x = 1 -> {5} [] x = 5 -> {1} [] OTHER -> {}
Empty == [x \in Names |-> {None}]
Start == [dir |-> 1, cache |-> <<Empty, Empty>>, local |-> [x \in Names |-> [k |-> 0, c |-> None]], remote |-> [x \in Names |-> None], tried |-> {}]
Ok(c) == [err |-> 0, c |-> c]
Fails == [err |-> 1]
Dead == [dead |-> 1]
------------------------------------------------------------ \* transfers
\* the ways a server answers a request for content c: all of it, or not
Whole(net, c) ==
  CASE net.k \in {"down", "status"} -> FALSE
    [] c.n < 0 -> FALSE
    [] net.k \in {"cut", "reset"} -> net.at >= c.n
    [] net.k \in {"chunkcut", "gzcut", "stall"} -> FALSE
    [] OTHER -> TRUE
\* a call that does not find the file in the cache: "ok", "err" or "dead", and the content
Fresh(s, g) ==
  LET l == s.local[g.name]  r == s.remote[g.name]
      c == IF l.k > 0 THEN l.c ELSE r
      there == IF l.k > 0 THEN l.k # 2 ELSE Whole(g.net, r)
  IN IF l.k = 0 /\ g.net.k = "stall" /\ r.n >= 0 THEN [how |-> "dead", c |-> None]
     ELSE IF there /\ g.ro = 0 /\ (g.disk = -1 \/ c.n <= g.disk) THEN [how |-> "ok", c |-> c] ELSE [how |-> "err", c |-> None]
---------------------------------------------------------------- \* steps
\* from a state, the answers of a step and the states after them
Now(s, x, cs) == [s EXCEPT !.cache[s.dir][x] = cs, !.tried = @ \cup {x}]
Gets(s, g) ==
  LET x == g.name  P == s.cache[s.dir][x]  f == Fresh(s, g)
      kept == {[ret |-> Ok(c), s |-> Now(s, x, {c})] : c \in P \ {None}}
      failed == [ret |-> Fails, s |-> Now(s, x, {None})]
      new == IF None \notin P THEN {}
             ELSE CASE f.how = "ok" -> {[ret |-> Ok(f.c), s |-> Now(s, x, {f.c})]} \cup (IF Rival(x) \cap s.tried # {} THEN {failed} ELSE {})
                    [] f.how = "err" -> {failed}
                    [] f.how = "dead" -> {[ret |-> Dead, s |-> Now(s, x, {None})]} \cup (IF Rival(x) \cap s.tried # {} THEN {failed} ELSE {})
      killed == IF g.kill > 0 THEN {[ret |-> Dead, s |-> Now(s, x, P \cup (IF None \in P /\ f.how = "ok" THEN {f.c} ELSE {}))]} ELSE {}
  IN kept \cup new \cup killed
\* what calls for one name, at the same time, may return
Served(s, p) == LET G == {i \in 1..Len(p.gets) : Whole(p.gets[i].net, p.gets[i].c)} IN {p.gets[i].c : i \in G} \cup (s.cache[s.dir][p.name] \ {None})
OneOk(s, p, r) == IF r.err = 1 THEN None \in s.cache[s.dir][p.name] ELSE IF r = Ok(r.c) THEN r.c \in Served(s, p) ELSE FALSE
\* which call gets which answer of the server is not decided
Errors(rets) == {i \in 1..Len(rets) : rets[i].err = 1}
Broken(p) == {i \in 1..Len(p.gets) : ~Whole(p.gets[i].net, p.gets[i].c)}
Pars(s, p, rets) ==
  IF Len(rets) = Len(p.gets) /\ (\A i \in 1..Len(rets) : OneOk(s, p, rets[i])) /\ (Cardinality(Errors(rets)) <= Cardinality(Broken(p)) \/ Rival(p.name) \cap s.tried # {})
  THEN LET got == {rets[i].c : i \in {j \in 1..Len(rets) : rets[j].err = 0}} IN
       {[ret |-> [rets |-> rets], s |-> Now(s, p.name, IF got = {} THEN {None} ELSE got)]}
  ELSE {}
Outcomes(s, st) ==
  CASE st.a = "get" -> Gets(s, st)
    [] st.a = "local" -> {[ret |-> [err |-> 0], s |-> [s EXCEPT !.local[st.name] = [k |-> st.k, c |-> st.c]]]}
    [] st.a = "remote" -> {[ret |-> [err |-> 0], s |-> [s EXCEPT !.remote[st.name] = st.c]]}
    [] st.a = "clean" -> {[ret |-> [err |-> 0], s |-> [s EXCEPT !.cache[s.dir] = Empty]]}
    [] st.a = "fresh" -> {[ret |-> [err |-> 0], s |-> [s EXCEPT !.dir = IF st.k = 2 THEN 2 ELSE 1]]}
=============================================================================
