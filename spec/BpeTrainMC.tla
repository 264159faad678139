----------------------------- MODULE BpeTrainMC -----------------------------
(* Trainings on every small set of words (B03).                              *)
EXTENDS BpeTrain
VARIABLES st, prev
vars == <<st, prev>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  e == 233
W(w, n) == [w |-> w, n |-> n, k |-> 1]
Words == {<<a, b>>, <<b, a, b>>, <<a, b, a, b>>, <<a, a, a, a>>, <<b, b, a>>, <<b>>, <<>>} \cup (IF Big THEN {<<a, b, e, a, b>>, <<a, a, b, a, a>>, <<e, a, a, a>>} ELSE {<<a, a, b, a, e>>})
Plain == [wc |-> <<>>, size |-> 30, minf |-> 0, special |-> <<>>, limit |-> <<>>, initial |-> <<>>, pre |-> <<>>, suf |-> <<>>]
\* up to three words with their counts
Sets == {<<W(x, i)>> : x \in Words, i \in {1, 2}}
        \cup {<<W(x, i), W(y, j)>> : x \in Words, y \in Words, i \in 1..2, j \in 1..2}
        \cup {<<W(x, 1), W(y, i), W(z, 2)>> : x \in Words, y \in Words, z \in Words, i \in IF Big THEN 1..3 ELSE {2}}
Distinct(s) == \A i, j \in 1..Len(s) : i # j => s[i].w # s[j].w
Options == {Plain, [Plain EXCEPT !.minf = 2], [Plain EXCEPT !.minf = 3, !.special = <<<<b>>>>], [Plain EXCEPT !.size = 4], [Plain EXCEPT !.size = 6, !.special = <<<<91>>, <<a, b>>, <<91>>>>],
            [Plain EXCEPT !.limit = <<1>>], [Plain EXCEPT !.limit = <<2>>, !.initial = <<e>>], [Plain EXCEPT !.limit = <<2>>, !.special = <<<<b>>>>],
            [Plain EXCEPT !.pre = <<<<35>>>>], [Plain EXCEPT !.suf = <<<<47, 119>>>>], [Plain EXCEPT !.pre = <<<<35, 35>>>>, !.suf = <<<<47>>>>, !.size = 9],
            [Plain EXCEPT !.pre = <<<<a>>>>], [Plain EXCEPT !.pre = <<<<>>>>, !.suf = <<<<>>>>, !.initial = <<233, 120>>]}
Toks == <<<<a, b, a, b>>, <<b, b, a, e>>, <<a>>>>
Init == \E s \in Sets : \E o \in Options : Distinct(s) /\ st = Started([o EXCEPT !.wc = s]) /\ prev = st
Next == More(st) /\ st' = MergeOnce(st) /\ prev' = st
Spec == Init /\ [][Next]_vars
Emit == ~More(st) => PrintT("CASE" \o ToJson([op |-> "bpetrain", o |-> st.o, toks |-> Toks, exp |-> Outcome(st, Toks)]))
--------------------------------------------------------- \* property predicates
Spelled(s) == Flatten([i \in 1..Len(s) |-> st.vocab[s[i] + 1]])
Holds ==
  /\ IsPrefixOf(AddTexts(<<>>, st.o.special), st.vocab)
  /\ Cardinality(Range(st.vocab)) = Len(st.vocab)
  /\ Len(st.vocab) <= Max2(st.o.size, st.base)
  /\ Len(st.vocab) - st.base <= Len(st.merges)
  \* the merge just made: the most frequent pair, frequent enough, its token the parts put together, and none of it left
  /\ st # prev => LET m == st.merges[Len(st.merges)] IN
       Len(st.merges) > Len(prev.merges) =>
       /\ PairCount(prev, m) >= Max2(1, st.o.minf)
       /\ \A q \in AllPairs(prev) : PairCount(prev, q) <= PairCount(prev, m)
       /\ st.vocab[m[3] + 1] = Joined(st, m)
       /\ m \notin {<<q[1], q[2]>> : q \in AllPairs(st)}
  \* words keep their spelling
  /\ (st.o.pre \in {<<>>, <<<<>>>>} /\ st.o.suf \in {<<>>, <<<<>>>>} /\ st.o.limit = <<>>) => {Spelled(st.words[i].s) : i \in 1..Len(st.words)} = {st.o.wc[i].w : i \in 1..Len(st.o.wc)}
============================================================================
