----------------------------- MODULE BpeTrain -----------------------------
(* Training a BPE model from word counts. Options are a record               *)
(*   wc       <<[w, n, k]>>: k different words with the core w, each counted *)
(*            n times; k is 1, unless only the initial alphabet is kept and  *)
(*            the words differ in other characters only                      *)
(*   size, minf   target size of the vocabulary, least frequency of a merge  *)
(*   special  texts of the special tokens                                    *)
(*   limit    <<>> or <<how many characters to keep>>                        *)
(*   initial  characters kept before all others                              *)
(*   pre, suf <<>> or <<text>>                                               *)
EXTENDS Bpe
RECURSIVE LessText(_, _)
LessText(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
                  ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE LessText(Tail(s), Tail(t))
RECURSIVE Uniq(_)
Uniq(s) == IF s = <<>> THEN <<>> ELSE LET u == Uniq(SubSeq(s, 1, Len(s) - 1)) IN IF s[Len(s)] \in Range(u) THEN u ELSE Append(u, s[Len(s)])
AddTexts(v, ts) == v \o SelectSeq(Uniq(ts), LAMBDA t : t \notin Range(v))
TextOr(o) == IF o = <<>> THEN <<>> ELSE o[1]
\* ------------------------------------------------------------- the alphabet
Weight(e) == e.n * e.k
Occurs(w, c) == Cardinality({i \in 1..Len(w) : w[i] = c})
CharFreq(o, c) == IF c \in Range(o.initial) THEN 1000000000 ELSE SumSeq([i \in 1..Len(o.wc) |-> Weight(o.wc[i]) * Occurs(o.wc[i].w, c)])
SeenChars(o) == UNION {Range(o.wc[i].w) : i \in 1..Len(o.wc)} \cup Range(o.initial)
\* the most frequent ones, the smaller ones on a tie
KeptChars(o) ==
  LET C == SeenChars(o)
      f == TLCEval([c \in C |-> CharFreq(o, c)])
      before(x, y) == f[x] > f[y] \/ (f[x] = f[y] /\ x < y)
  IN IF o.limit = <<>> THEN C ELSE {c \in C : Cardinality({d \in C : before(d, c)}) < o.limit[1]}
\* ------------------------------------------------------------ the first state
Forms(o, w) == [i \in 1..Len(w) |-> (IF i > 1 THEN TextOr(o.pre) ELSE <<>>) \o <<w[i]>> \o (IF i = Len(w) THEN TextOr(o.suf) ELSE <<>>)]
SortedWords(o) == SortSeq(o.wc, LAMBDA x, y : LessText(x.w, y.w))
RECURSIVE AddForms(_, _, _, _)
AddForms(o, v, es, keep) ==   \* the characters of the words as they stand in them
  IF es = <<>> THEN v
  ELSE LET w == Head(es).w  fs == Forms(o, w)
           used == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : w[i] \in keep)
       IN AddForms(o, AddTexts(v, [i \in 1..Len(used) |-> fs[used[i]]]), Tail(es), keep)
IndexOf(v, t) == (CHOOSE i \in 1..Len(v) : v[i] = t) - 1
Started(o) ==
  LET v0 == AddTexts(<<>>, o.special)
      v1 == AddTexts(v0, [i \in 1..Cardinality(KeptChars(o)) |-> <<SortedSet(KeptChars(o))[i]>>])
      keep == {c \in SeenChars(o) : <<c>> \in Range(v1)}
      es == SortedWords(o)
      v2 == AddForms(o, v1, es, keep)
      seg(w) == LET fs == Forms(o, w) used == SelectSeq([i \in 1..Len(w) |-> i], LAMBDA i : w[i] \in keep)
                IN [i \in 1..Len(used) |-> IndexOf(v2, fs[used[i]])]
  IN TLCEval([o |-> o, vocab |-> v2, base |-> Len(v2), merges |-> <<>>,
      words |-> [i \in 1..Len(es) |-> [s |-> seg(es[i].w), n |-> Weight(es[i])]]])
\* -------------------------------------------------------------- one more merge
PairsIn(s) == {<<s[i], s[i + 1]>> : i \in 1..(Len(s) - 1)}
AllPairs(st) == UNION {PairsIn(st.words[i].s) : i \in 1..Len(st.words)}
PairCount(st, p) == SumSeq([i \in 1..Len(st.words) |-> st.words[i].n * Cardinality({j \in 1..(Len(st.words[i].s) - 1) : st.words[i].s[j] = p[1] /\ st.words[i].s[j + 1] = p[2]})])
Counts(st) == TLCEval([p \in AllPairs(st) |-> PairCount(st, p)])
Candidates(st) == LET f == Counts(st) IN {p \in DOMAIN f : f[p] >= Max2(1, st.o.minf)}
More(st) == Len(st.vocab) < st.o.size /\ Candidates(st) # {}
BestPair(st) == LET f == Counts(st) IN
  CHOOSE p \in DOMAIN f : \A q \in DOMAIN f : f[q] < f[p] \/ (f[q] = f[p] /\ (p[1] < q[1] \/ (p[1] = q[1] /\ p[2] <= q[2])))
RECURSIVE MergeIn(_, _, _)
MergeIn(s, p, n) == IF Len(s) < 2 THEN s
  ELSE IF s[1] = p[1] /\ s[2] = p[2] THEN <<n>> \o MergeIn(SubSeq(s, 3, Len(s)), p, n)
  ELSE <<s[1]>> \o MergeIn(Tail(s), p, n)
Joined(st, p) == LET a == st.vocab[p[1] + 1]  b == st.vocab[p[2] + 1]  x == TextOr(st.o.pre)
                 IN a \o (IF IsPrefixOf(x, b) THEN Drop(b, Len(x)) ELSE b)
MergeOnce(st) ==
  LET p == BestPair(st)
      v == AddTexts(st.vocab, <<Joined(st, p)>>)
      n == IndexOf(v, Joined(st, p))
      known == \E i \in 1..Len(st.merges) : st.merges[i][1] = p[1] /\ st.merges[i][2] = p[2]
  IN TLCEval([st EXCEPT !.vocab = v, !.merges = IF known THEN @ ELSE Append(@, <<p[1], p[2], n, Len(@)>>),
                !.words = [i \in 1..Len(st.words) |-> [st.words[i] EXCEPT !.s = MergeIn(@, p, n)]]])
RECURSIVE Trained(_)
Trained(st) == IF More(st) THEN Trained(MergeOnce(st)) ELSE st
AsModel(st) == [vocab |-> st.vocab, merges |-> st.merges, unk |-> <<>>, pre |-> TextOr(st.o.pre), suf |-> TextOr(st.o.suf), drop |-> 0, cap |-> 0]
\* what is observed of a trained model
Outcome(st, toks) == [vocab |-> st.vocab, merges |-> st.merges, special |-> st.o.special,
                      toks |-> [i \in 1..Len(toks) |-> CHOOSE r \in Tokenized(AsModel(st), toks[i]) : TRUE]]
============================================================================
