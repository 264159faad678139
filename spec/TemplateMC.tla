---------------------------- MODULE TemplateMC ----------------------------
(* Every short text as a template, and every short history of the builder.   *)
EXTENDS Template, Json, IOUtils

Big == IOEnv.TIER = "thorough"
VARIABLES b, prev, hist, k
vars == <<b, prev, hist, k>>

X == <<88>>  Y == <<89, 93>>
Alphabet == {Dollar, 65, 98, 49, Colon, Blank, 88}
Texts == SeqsUpTo(Alphabet, IF Big THEN 5 ELSE 4) \cup {<<Dollar, 49, 49, Colon, 49, 50>>, <<Dollar, 66, Colon, 50>>, <<36, 67>>, <<88, 36>>, <<36, 36>>, <<Dollar, 97, 65>>}
One(s) == [one |-> s]
Many(l) == [many |-> l]
A == <<Dollar, 65>>  B1 == <<Dollar, 66, Colon, 49>>
Join(l) == JoinSeqs(l, <<Blank>>)
Ways == {One(Join(<<X, A, Y>>)), Many(<<X, A, Y>>), One(A), One(Join(<<A, B1>>)), Many(<<Y, B1, X, <<Dollar, 50>> >>), One(Join(<<X, A, X \o <<Colon, 50>>, B1, Y>>)),
         One(Join(<<A, <<Dollar, 67>> >>))}
MoreWays == {Many(<<X>>), Many(<<>>), One(<<Blank, Dollar>>), Many(<<Join(<<X, A>>)>>)}
T1(id, s) == [id |-> id, tk |-> s]
TokSets == {<<>>, <<T1(1, X), T1(2, Y)>>, <<T1(2, Y)>>, <<T1(1, X), T1(5, <<>>), T1(2, Y), T1(7, Join(<<X, A>>))>>, <<T1(1, X), T1(3, X)>>}
Builds == IF Big THEN [a : {"single", "pair"}, w : Ways \cup MoreWays] \cup [a : {"tokens"}, toks : TokSets]
          ELSE [a : {"single", "pair"}, w : Ways] \cup [a : {"tokens"}, toks : TokSets]
Asks == {[a |-> "added"], [a |-> "validate"], [a |-> "find", s |-> X, n |-> 0], [a |-> "find", s |-> <<>>, n |-> 1], [a |-> "find", s |-> Y, n |-> 4], [a |-> "find", s |-> Y, n |-> -1],
         [a |-> "process", two |-> 0, add |-> 1], [a |-> "process", two |-> 1, add |-> 1], [a |-> "process", two |-> 0, add |-> 0], [a |-> "process", two |-> 1, add |-> 0]}
Depth == 3

Act(s) == LET r == Took(b, s) IN
          /\ b' = r.b /\ prev' = b /\ hist' = [steps |-> Append(hist.steps, s), obs |-> Append(hist.obs, r.ret)]
Init == b = Fresh /\ prev = Fresh /\ hist = [steps |-> <<>>, obs |-> <<>>] /\ k = 0
Next == \/ /\ k = 0
           /\ \/ \E t \in Texts, a \in {"piece"} : Act([a |-> a, s |-> t])
              \/ \E t \in Texts : Act([a |-> "template", w |-> One(t)])
              \/ \E t1, t2 \in SeqsUpTo(Alphabet, 2) : Act([a |-> "template", w |-> Many(<<t1, t2>>)])
           /\ k' = 99
        \/ k < Depth /\ (\E s \in Builds : Act(s)) /\ k' = k + 1
        \/ k = Depth - 1 /\ (\E s \in {[a |-> "validate"]} : Act(s)) /\ k' = k + 1 \* a step out of order
        \/ k = Depth /\ (\E s \in Asks : Act(s)) /\ k' = 99
Spec == Init /\ [][Next]_vars

Emit == k = 99 => PrintT("CASE" \o ToJson([op |-> "template", steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

------------------------------------------------ \* property predicates
Last == hist.steps[Len(hist.steps)]
Ret == hist.obs[Len(hist.obs)]
\* text that is written from pieces reads as those pieces
Again(ps) == \A i \in 1..Len(ps) : PieceOf(PieceText(ps[i])) = ps[i]
Holds ==
  /\ k > 0 /\ Last.a = "piece" /\ Ret.k # "bad" => PieceOf(PieceText(Ret)) = Ret /\ (Ret.k = "seq" <=> Last.s # <<>> /\ Last.s[1] = Dollar)
  /\ k > 0 /\ Last.a = "template" /\ "one" \in DOMAIN Last.w /\ Fine(Ret) => Again(Ret) /\ Len(Ret) = 1 + Len(SelectSeq(Last.w.one, LAMBDA c : c = Blank))
  \* a valid template can be applied, inserts what it announces and keeps the sequences
  /\ k > 0 /\ Last.a = "process" /\ ~Invalid(b) /\ Last.two = 1 /\ (Len(SelectSeq(b.pair, LAMBDA p : p.k = "seq")) = 2) =>
       /\ Ret # Skipped
       /\ LET t == Ret[1].t  n == CountAdded(b, b.pair) IN
            /\ Len(t) = Len(Inputs[1].t) + Len(Inputs[2].t) + Last.add * n
            /\ Len(SelectSeq(t, LAMBDA x : x.sp = 0)) = Len(Inputs[1].t) + Len(Inputs[2].t)
  /\ k > 0 /\ Last.a \in {"added", "validate", "find", "process"} => b = prev
  /\ k > 0 /\ Last.a = "single" => b.pair = prev.pair /\ b.toks = prev.toks
  /\ k > 0 /\ Last.a = "pair" => b.single = prev.single /\ b.toks = prev.toks
============================================================================
