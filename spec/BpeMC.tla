------------------------------- MODULE BpeMC -------------------------------
(* Exhaustive small scopes of the BPE model (B01) and its cache (B02).       *)
EXTENDS Bpe
VARIABLES m, c, k, hist
vars == <<m, c, k, hist>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
a == 97  b == 233  x == 128512  bad == -255  pfx == <<35>>  sfx == <<47>>
u == <<60, 117, 62>>

--------------------------------------------- \* B01: every merge list, every word
Base(p, s) == [vocab |-> <<u, <<a>>, <<b>>>> \o (IF p # <<>> THEN <<p \o <<a>>, p \o <<b>>>> ELSE <<>>)
                         \o (IF s # <<>> THEN <<<<a>> \o s, <<b>> \o s>> ELSE <<>>)
                         \o (IF p # <<>> /\ s # <<>> THEN <<p \o <<a>> \o s, p \o <<b>> \o s>> ELSE <<>>),
               merges |-> <<>>, unk |-> <<u>>, pre |-> p, suf |-> s, drop |-> 0, cap |-> 0]
Bases == {[Base(<<>>, <<>>) EXCEPT !.unk = n, !.drop = d] : n \in {<<>>, <<u>>, <<<<a>>>>, <<<<x>>>>}, d \in {0, 2}}
         \cup {[Base(<<>>, <<>>) EXCEPT !.vocab = Append(@, <<Bad>>)]}
         \cup {Base(pfx, <<>>), Base(<<>>, sfx), Base(pfx, sfx), Base(<<a>>, sfx)}
Simple(n) == n.pre = <<>> /\ n.suf = <<>>
MaxMerges(n) == IF Simple(n) /\ n.unk = <<u>> /\ n.drop = 0 THEN (IF Big THEN 4 ELSE 3) ELSE IF Big THEN 2 ELSE 1
Ranks(n) == LET l == Len(n.merges) IN IF l = 0 THEN {5} ELSE IF l = 1 THEN {5, 4, 6} ELSE IF Big THEN {n.merges[l][4], 7} ELSE {5}
\* a third merge: only of what the second made, and the unknown token in none
Chained(n, l, r) == Len(n.merges) < 2 \/ (n.merges[Len(n.merges)][3] \in {l, r} /\ \A i \in {l, r, n.merges[1][1], n.merges[1][2], n.merges[2][1], n.merges[2][2]} : i # 0)
Unprefixed(p, t) == IF p # <<>> /\ IsPrefixOf(p, t) THEN Drop(t, Len(p)) ELSE t
\* the vocabulary with t, the id of t
With(n, t) == IF IdIn(n, t) >= 0 THEN n ELSE [n EXCEPT !.vocab = Append(@, t)]
MoreMerges == IF Len(m.merges) >= MaxMerges(m) \/ k > 0 THEN {}
  ELSE {<<l, r, q>> \in (0..(Len(m.vocab) - 1)) \X (0..(Len(m.vocab) - 1)) \X Ranks(m) : Chained(m, l, r) /\ (Big \/ Len(m.merges) < 2 \/ m.merges[2][4] # 6) /\ ~\E j \in 1..Len(m.merges) : m.merges[j][1] = l /\ m.merges[j][2] = r}
AddMerge(n, l, r, q) == LET t == n.vocab[l + 1] \o Unprefixed(n.pre, n.vocab[r + 1])  n2 == With(n, t)
                        IN [n2 EXCEPT !.merges = Append(@, <<l, r, IdIn(n2, t), q>>)]
RECURSIVE AsSeq(_)
AsSeq(S) == IF S = {} THEN <<>> ELSE LET e == CHOOSE z \in S : TRUE IN <<e>> \o AsSeq(S \ {e})
ASSUME TLCSet(45, AsSeq(SeqsUpTo({a, b, x}, 3) \cup SeqsUpTo({a, b}, IF Big THEN 5 ELSE 4) \cup {<<a, bad, b>>, <<bad>>, <<a, b, a, b, a, b, a>>, <<a, a, a, a, a, a>>, <<b, a, a, b, a, a, b>>}))
ASSUME TLCSet(46, AsSeq(SeqsUpTo({a, b}, 3) \cup {<<x>>, <<a, x>>, <<x, x, b>>, <<a, bad, b>>, <<a, b, a, b, a>>, <<b, a, a, b, a, a, b>>}))
Words(n) == TLCGet(IF Simple(n) THEN 45 ELSE 46)
TokAll(n) == TLCEval([j \in 1..Len(Words(n)) |-> [a |-> "tok", w |-> Words(n)[j]]])
Lookups(n) == [a |-> "look", ts |-> n.vocab \o <<<<>>, <<x, a>>, <<a, a>>>>, ids |-> [j \in 1..(Len(n.vocab) + 2) |-> j - 2]]

--------------------------------------------------------- \* B02: every history
CacheOps == {[a |-> "get", k |-> 1], [a |-> "gets", ks |-> <<3, 1>>], [a |-> "set", items |-> <<<<1, 1>>>>], [a |-> "set", items |-> <<<<1, 2>>, <<2, 1>>>>],
             [a |-> "set", items |-> <<<<2, 2>>, <<2, 3>>, <<3, 1>>>>], [a |-> "set", items |-> <<>>], [a |-> "clear"], [a |-> "size"], [a |-> "full"]}
CacheEnd == <<[a |-> "gets", ks |-> <<1, 2, 3, 4>>], [a |-> "size"], [a |-> "full"]>>
Depth2 == IF Big THEN 6 ELSE 4
Small == [Base(<<>>, <<>>) EXCEPT !.merges = <<<<1, 2, 3, 1>>>>, !.vocab = Append(@, <<a, b>>), !.unk = <<>>]
ModelOps == {[a |-> "tok", w |-> w] : w \in {<<a, b>>, <<a, a, b>>, <<b>>, <<>>, <<a, x>>}} \cup {[a |-> "clear"]}
ModelEnd == <<[a |-> "size"], [a |-> "tok", w |-> <<a, b>>], [a |-> "tok", w |-> <<b>>], [a |-> "size"]>>

Init ==
  IF Prop = "B01" THEN m \in Bases /\ c = NewCache(0) /\ k = 0 /\ hist = [steps |-> <<>>, obs |-> <<>>, end |-> <<>>, op |-> "bpe"]
  ELSE \/ \E n \in 0..3 : m = [Small EXCEPT !.cap = n] /\ c = NewCache(n) /\ k = 0 /\ hist = [steps |-> <<>>, obs |-> <<>>, end |-> CacheEnd, op |-> "cache"]
       \/ \E n \in 0..3 : m = [Small EXCEPT !.cap = n] /\ c = NewCache(n) /\ k = 0 /\ hist = [steps |-> <<>>, obs |-> <<>>, end |-> ModelEnd, op |-> "bpe"]
Do(s, rets, nxt) == /\ \E r \in rets : hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [ret |-> r])]
                    /\ c' = nxt /\ k' = k + 1 /\ UNCHANGED m
\* a model is complete: all its words and lookups at once
Finish == /\ Prop = "B01" /\ k = 0
          /\ LET ss == Append(TokAll(m), Lookups(m)) IN
             hist' = [hist EXCEPT !.steps = ss, !.obs = TLCEval([j \in 1..Len(ss) |-> [ret |-> CHOOSE r \in BpeRets(m, c, ss[j]) : TRUE]])]
          /\ k' = 1 /\ UNCHANGED <<m, c>>
Grow == /\ Prop = "B01" /\ k = 0
        /\ \E z \in MoreMerges : m' = AddMerge(m, z[1], z[2], z[3])
        /\ UNCHANGED <<c, k, hist>>
Step == /\ Prop = "B02" /\ k < Depth2 + Len(hist.end)
        /\ \E s \in IF k >= Depth2 THEN {hist.end[k - Depth2 + 1]} ELSE IF hist.op = "cache" THEN CacheOps ELSE ModelOps :
             IF hist.op = "cache" THEN LET r == CacheStep(c, s) IN Do(s, {r.ret}, r.c)
             ELSE Do(s, BpeRets(m, c, s), BpeNext(m, c, s))
Next == Finish \/ Grow \/ Step
Spec == Init /\ [][Next]_vars
Done == IF Prop = "B01" THEN k = 1 ELSE k = Depth2 + Len(hist.end)
Emit == Done => PrintT("CASE" \o ToJson([op |-> hist.op, model |-> m, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

------------------------------------------------------- \* property predicates
WordOk(w, r) ==
  LET s == Symbols(m, w)
      out == TLCEval([i \in 1..Len(r.toks) |-> [id |-> r.toks[i].id, n |-> r.toks[i].o[2] - r.toks[i].o[1]]])
  IN IF Fails(s) THEN r.err = 1 ELSE
     /\ r.err = 0 /\ (Len(w) <= 4 => out \in Reach(m, s))
     /\ m.drop = 2 => out = s
     /\ m.drop = 0 => Allowed(m, out) = {}
     /\ \A i \in 1..Len(r.toks) : r.toks[i].o[1] < r.toks[i].o[2] /\ r.toks[i].o[1] = (IF i = 1 THEN 0 ELSE r.toks[i - 1].o[2]) /\ m.vocab[r.toks[i].id + 1] = r.toks[i].v
     /\ w # <<>> => r.toks # <<>> /\ r.toks[Len(r.toks)].o[2] = Bytes(w)
     \* without decorations and unknown characters the values spell the word
     /\ (Simple(m) /\ m.unk \in {<<>>, <<u>>} /\ \A i \in 1..Len(w) : IdIn(m, <<w[i]>>) >= 0) => Flatten([i \in 1..Len(r.toks) |-> r.toks[i].v]) = w
PropB01 == k = 1 => \A j \in 1..Len(hist.steps) : hist.steps[j].a = "tok" => WordOk(hist.steps[j].w, hist.obs[j].ret)
\* what was stored under a key since the last clear
Since == LET cl == {j \in 1..Len(hist.steps) : hist.steps[j].a = "clear"} IN IF cl = {} THEN 0 ELSE MaxOf(cl)
StoredValues(key) == {v \in 1..3 : \E j \in (Since + 1)..Len(hist.steps) : hist.steps[j].a = "set" /\ \E i \in 1..Len(hist.steps[j].items) : hist.steps[j].items[i] = <<key, v>>}
PropB02 == /\ Size(c) <= c.cap
           /\ hist.op = "cache" => \A key \in DOMAIN c.m : c.m[key] \in StoredValues(key)
           /\ hist.op = "bpe" => \A w \in DOMAIN c.m : \E j \in (Since + 1)..Len(hist.steps) : hist.steps[j].a = "tok" /\ hist.steps[j].w = w
Holds == IF Prop = "B01" THEN PropB01 ELSE PropB02
============================================================================
