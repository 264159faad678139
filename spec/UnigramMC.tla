----------------------------- MODULE UnigramMC -----------------------------
(* Small scored vocabularies with every short text. One transition cuts off  *)
(* one piece more, so that TLC goes through every cutting of every text.     *)
EXTENDS Unigram
VARIABLES m, w, segs, at
vars == <<m, w, segs, at>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  eac == 233
Unk == <<60, 117, 62>>
P(t, s) == [t |-> t, s |-> s]
\* scores far enough from each other that few cuttings tie
Vocabs ==
  {<<P(Unk, 0)>> \o x : x \in {
     <<P(<<a>>, -4), P(<<b>>, -9), P(<<a, b>>, -12), P(<<b, a>>, -16)>>,
     <<P(<<a>>, -4), P(<<b>>, -9), P(<<a, b>>, -14), P(<<b, a>>, -11), P(<<a, b, a>>, -17)>>,
     <<P(<<a, b>>, -3), P(<<b, b>>, 5), P(<<a, a, b>>, 1)>>,
     <<P(<<b>>, -1), P(<<a, a>>, 90), P(<<a, b, b>>, 100)>>,
     <<P(<<a>>, 200), P(<<b, b>>, 203), P(<<b, a>>, 207)>>,
     <<P(ByteToken(97), -3), P(<<b>>, -5), P(<<b, a>>, -60)>>,
     <<P(ByteToken(195), -3), P(ByteToken(169), -2), P(<<a>>, -1), P(<<eac, a>>, -70)>>,
     <<P(ByteToken(195), -3), P(ByteToken(98), -2), P(<<a, b>>, -1)>>,
     <<>>}}
  \cup {<<P(<<a>>, -2), P(<<b, a>>, -3), P(<<60>>, -5)>>, <<>>, <<P(<<a, b>>, -1), P(<<a>>, -2), P(<<b>>, -5), P(<<>>, -3)>>}
Texts == SeqsUpTo({a, b}, IF Big THEN 7 ELSE 5) \cup SeqsUpTo({a, eac}, 3) \cup {<<a>> \o Unk \o <<eac>>, Unk, <<eac, b, a, eac, eac>>, ByteToken(97), <<a, -195>>, <<-169, b, -195>>}
\* every cutting that has been completed is looked at
Init == /\ m \in {[vocab |-> v, unk |-> u, fuse |-> f, fb |-> k] : v \in Vocabs, u \in {<<>>, <<0>>, <<1>>}, f \in {0, 1}, k \in {0, 1}}
        /\ (m.unk # <<>> => m.unk[1] < Len(m.vocab) /\ Len(m.vocab[m.unk[1] + 1].t) # 6)
        /\ w \in Texts /\ segs = <<>> /\ at = 0
Next == \E e \in EdgesAt(m, w, at) : segs' = Append(segs, e) /\ at' = e.b /\ UNCHANGED <<m, w>>
Spec == Init /\ [][Next]_vars
Score == SumSeq([i \in 1..Len(segs) |-> segs[i].s])
AllBest == LET E == Edges(m, w) IN BestFrom(E, Len(w), 0)[1]
RECURSIVE Paths(_, _, _)
Paths(E, best, x) == IF x = Len(w) THEN {<<>>} ELSE UNION {{<<e>> \o p : p \in Paths(E, best, e.b)} : e \in {y \in E[x + 1] : best[y.b + 1] # None /\ y.s + best[y.b + 1] = best[x + 1]}}
\* a case is emitted at the start, if all best cuttings look the same
Emit == (segs = <<>>) =>
  LET E == Edges(m, w)  best == BestFrom(E, Len(w), 0)
      outs == IF best[1] = None THEN {[err |-> 1, toks |-> <<>>]} ELSE {[err |-> 0, toks |-> Render(m, w, p, -1)] : p \in Paths(E, best, 0)}
      out == CHOOSE o \in outs : TRUE
  IN IF Cardinality(outs) = 1 THEN PrintT("CASE" \o ToJson([op |-> "unigram", m |-> m, steps |-> <<[a |-> "tok", w |-> w], [a |-> "tok", w |-> w]>>, exp |-> [obs |-> <<[ret |-> out], [ret |-> out]>>]])) ELSE TRUE
\* no cutting has a better score than the best; how a cutting looks is accepted exactly if it is one of the best
Holds == at = Len(w) =>
  LET r == [err |-> 0, toks |-> Render(m, w, segs, -1)] IN
  /\ Score <= AllBest
  /\ (Score = AllBest => Accepts(m, w, r))
  /\ (Accepts(m, w, r) => \E p \in Paths(Edges(m, w), BestFrom(Edges(m, w), Len(w), 0), 0) : Render(m, w, p, -1) = r.toks)
  \* tokens cover the text
  /\ (w # <<>> => r.toks[1].o[1] = 0 /\ r.toks[Len(r.toks)].o[2] = Bytes(w))
  /\ \A i \in 1..(Len(r.toks) - 1) : r.toks[i + 1].o[1] = r.toks[i].o[2] \/ (m.fb = 1 /\ r.toks[i + 1].o = r.toks[i].o)
  /\ \A i \in 1..(Len(r.toks) - 1) : m.fuse = 1 => ~(IsUnk(m, r.toks[i].id) /\ IsUnk(m, r.toks[i + 1].id))
=============================================================================
