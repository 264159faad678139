-------------------------------- MODULE Bpe --------------------------------
(* The BPE model: a vocabulary, ranked merges, and a cache of words.         *)
(* A model is a record                                                       *)
(*   vocab   texts; the id of the i-th is i-1                                *)
(*   merges  <<left id, right id, new id, rank>>                             *)
(*   unk     <<>> or <<text of the unknown token>>                           *)
(*   pre, suf  what characters behind another one start with, and what the   *)
(*           last one ends with                                              *)
(*   drop    0 no dropout, 1 some, 2 every merge                             *)
(*   cap     capacity of the cache                                           *)
EXTENDS Chars
\* ------------------------------------------------------------ merging a word
IdIn(m, t) == LET S == {i \in 1..Len(m.vocab) : m.vocab[i] = t} IN IF S = {} THEN -1 ELSE MinOf(S) - 1
HasUnk(m) == m.unk # <<>> /\ IdIn(m, m.unk[1]) >= 0
CharText(m, w, i) == (IF i > 1 THEN m.pre ELSE <<>>) \o <<Rune(w[i])>> \o (IF i = Len(w) THEN m.suf ELSE <<>>)
CharId(m, w, i) == LET d == IdIn(m, CharText(m, w, i)) IN IF d >= 0 THEN d ELSE IF HasUnk(m) THEN IdIn(m, m.unk[1]) ELSE -1
\* the word as symbols [id, number of bytes]
Symbols(m, w) == TLCEval([i \in 1..Len(w) |-> [id |-> CharId(m, w, i), n |-> Width(w[i])]])
Fails(s) == \E i \in 1..Len(s) : s[i].id = -1
\* the merges a segmentation allows, as <<position, index of the merge>>
Allowed(m, s) == {<<i, j>> \in (1..(Len(s) - 1)) \X (1..Len(m.merges)) : s[i].id = m.merges[j][1] /\ s[i + 1].id = m.merges[j][2]}
Better(m, x, y) == m.merges[x[2]][4] < m.merges[y[2]][4] \/ (m.merges[x[2]][4] = m.merges[y[2]][4] /\ x[1] <= y[1])
Best(m, s) == LET A == Allowed(m, s) IN CHOOSE x \in A : \A y \in A : Better(m, x, y)
Apply(m, s, x) == TLCEval(Take(s, x[1] - 1) \o <<[id |-> m.merges[x[2]][3], n |-> s[x[1]].n + s[x[1] + 1].n]>> \o Drop(s, x[1] + 1))
RECURSIVE Merged(_, _)
Merged(m, s) == IF Allowed(m, s) = {} THEN s ELSE Merged(m, Apply(m, s, Best(m, s)))
\* every segmentation that merging in any order leads to
RECURSIVE ReachFrom(_, _, _)
ReachFrom(m, seen, new) == IF new = {} THEN seen
  ELSE LET nx == UNION {{Apply(m, s, x) : x \in Allowed(m, s)} : s \in new} IN ReachFrom(m, seen \cup new, nx \ seen)
Reach(m, s) == ReachFrom(m, {}, {s})
Tokens(m, s) == TLCEval([i \in 1..Len(s) |-> LET p == SumSeq([j \in 1..(i - 1) |-> s[j].n]) IN
                   [id |-> s[i].id, v |-> m.vocab[s[i].id + 1], o |-> <<p, p + s[i].n>>]])
\* the possible outcomes of tokenizing w
Tokenized(m, w) ==
  LET s == Symbols(m, w) IN
  IF Fails(s) THEN {[err |-> 1, toks |-> <<>>]}
  ELSE {[err |-> 0, toks |-> Tokens(m, x)] : x \in IF m.drop = 2 THEN {s} ELSE IF m.drop = 1 THEN Reach(m, s) ELSE {Merged(m, s)}}
\* ------------------------------------------------------------------ the cache
\* a cache [cap, m]: m from keys to values, at most cap of them
NewCache(cap) == [cap |-> cap, m |-> <<>>]
Size(c) == Cardinality(DOMAIN c.m)
Lookup(c, k) == IF k \in DOMAIN c.m THEN <<c.m[k]>> ELSE <<>>
\* items <<key, value>> are stored from the first on while places were free
Store(c, items) ==
  LET kept == Take(items, Max2(0, c.cap - Size(c)))
      ks == {kept[i][1] : i \in 1..Len(kept)}
  IN [c EXCEPT !.m = [k \in DOMAIN c.m \cup ks |-> IF k \in ks THEN kept[MaxOf({i \in 1..Len(kept) : kept[i][1] = k})][2] ELSE c.m[k]]]
CacheStep(c, s) ==
  CASE s.a = "get" -> [c |-> c, ret |-> Lookup(c, s.k)]
    [] s.a = "gets" -> [c |-> c, ret |-> [i \in 1..Len(s.ks) |-> Lookup(c, s.ks[i])]]
    [] s.a = "set" -> [c |-> Store(c, s.items), ret |-> 0]
    [] s.a = "many" -> [c |-> Store(c, [i \in 1..s.n |-> <<s.k + i - 1, s.v>>]), ret |-> 0]
    [] s.a = "clear" -> [c |-> NewCache(c.cap), ret |-> 0]
    [] s.a = "size" -> [c |-> c, ret |-> Size(c)]
    [] s.a = "full" -> [c |-> c, ret |-> B2I(Size(c) >= c.cap)]
\* ------------------------------------------------------------------- the model
\* what a step on the model may return; c is its cache, of the words tokenized
Cached(m, c, w) == IF m.drop # 0 \/ w = <<>> \/ Fails(Symbols(m, w)) THEN c ELSE IF Lookup(c, w) # <<>> THEN c ELSE Store(c, << <<w, 1>> >>)
BpeRets(m, c, s) ==
  CASE s.a = "tok" -> Tokenized(m, s.w)
    [] s.a = "look" -> {[ids |-> [i \in 1..Len(s.ts) |-> IdIn(m, s.ts[i])],
                         ts |-> [i \in 1..Len(s.ids) |-> IF s.ids[i] \in 0..(Len(m.vocab) - 1) THEN <<m.vocab[s.ids[i] + 1]>> ELSE <<>>],
                         n |-> Len(m.vocab), all |-> m.vocab]}
    [] s.a = "clear" -> {0}
    [] s.a = "size" -> {Size(c)}
BpeNext(m, c, s) ==
  CASE s.a = "tok" -> Cached(m, c, s.w)
    [] s.a = "clear" -> NewCache(c.cap)
    [] OTHER -> c
============================================================================
