---------------------------- MODULE ModelFilesMC ----------------------------
(* All short histories of saving, loading, and mishaps; every small BPE      *)
(* model saved and loaded; every wrong pair of files.                        *)
EXTENDS ModelFiles
VARIABLES c, fs, rets, todo
vars == <<c, fs, rets, todo>>
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  eac == 233
U == <<91, 85, 93>>
RECURSIVE Numbered(_, _)
Numbered(ts, i) == IF i > Len(ts) THEN <<>> ELSE <<[t |-> ts[i], id |-> Len(ts) - i]>> \o Numbered(ts, i + 1)
Wm(ts) == [vocab |-> Numbered(ts, 1), unk |-> U, pre |-> <<35, 35>>, max |-> 100]
WModels == <<Wm(<<U, <<a>>, <<a, b>>, <<35, 35, b>>, <<eac>>>>), Wm(<<<<b>>, U>>), Wm(<<<<a, 32, b>>, <<34, 60, 92>>, <<13, a>>, <<>>, <<35>>, <<a>>>>)>>
WWords == <<<<a>>, <<a, b>>, <<b>>, <<eac, eac>>, <<a, 32, b>>>>
Bm(vocab, merges, pre) == [vocab |-> vocab, ids |-> [i \in 1..Len(vocab) |-> 7 * (Len(vocab) - i)], merges |-> merges, unk |-> <<>>, pre |-> pre, suf |-> <<>>, drop |-> 0, cap |-> 10]
Av == <<<<a>>, <<b>>, <<a, b>>, <<b, a>>, <<a, b, a>>>>
AllMerges == {<<0, 1, 2>>, <<1, 0, 3>>, <<2, 0, 4>>, <<0, 3, 4>>}
Orders(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Orderings == UNION {Orders(S) : S \in SUBSET AllMerges}
Ranks(o) == [i \in 1..Len(o) |-> o[i] \o <<3 * i>>]
\* listed against their ranks
Backwards(s) == [i \in 1..Len(s) |-> s[Len(s) + 1 - i]]
Pv == <<<<a>>, <<64, b>>, <<a, b>>, <<64, 64, b>>, <<35, 118, 101, 114, 115, 105, 111, 110, a>>, <<35, 118, 101, 114, 115, 105, 111, 110>>, <<a, 60, 38, 8232>>>>
BModels == <<Bm(Av, Ranks(<<<<2, 0, 4>>, <<0, 1, 2>>, <<1, 0, 3>>>>), <<>>), Bm(<<<<a>>, <<b>>, <<b, a>>>>, <<<<1, 0, 2, 5>>>>, <<>>), Bm(Pv, <<<<0, 1, 2, 1>>, <<5, 0, 4, 2>>>>, <<64>>)>>
BWords == <<<<a>>, <<a, b, a>>, <<b, a, b>>, <<a, eac>>>>
Um(vocab, unk, fuse, fb) == [vocab |-> vocab, unk |-> unk, fuse |-> fuse, fb |-> fb]
Uv(t, s) == [t |-> t, s |-> s]
UModels == <<Um(<<Uv(U, 0), Uv(<<a>>, -3), Uv(<<a, b>>, -4)>>, <<0>>, 0, 0), Um(<<Uv(<<eac>>, -7)>>, <<>>, 1, 1),
             Um(<<Uv(<<34, 60, 92, 8232>>, 5), Uv(<<b>>, -1), Uv(<<10, 0>>, -400001), Uv(U, 0), Uv(<<>>, 1)>>, <<3>>, 1, 0)>>
\* ------------------------------------------------------------------ histories
Kinds == {"wp", "wl", "bpe", "uni"}
Case(k) == [kind |-> k, models |-> IF k = "uni" THEN UModels ELSE IF k = "bpe" THEN BModels ELSE WModels, words |-> IF k = "bpe" THEN BWords ELSE WWords]
Moves(k) == {[a |-> "save", m |-> m, name |-> n, miss |-> 0] : m \in 1..3, n \in 0..1} \cup {[a |-> "save", m |-> 1, name |-> 0, miss |-> 1]}
            \cup {[a |-> "load", m |-> m, name |-> 0] : m \in {1, 3}} \cup {[a |-> "load", m |-> 1, name |-> 1]}
            \cup {[a |-> "rm", name |-> 0, f |-> r] : r \in Roles(k)} \cup {[a |-> "block", name |-> 0, f |-> r, how |-> h] : r \in Roles(k), h \in 0..1}
Depth == IF Big THEN 4 ELSE 3
\* ---------------------------------------------------- fixed lists of steps
Text(s) == [k |-> "text", s |-> s]
Json(e) == [k |-> "json", e |-> e]
Wrong == {Text(s) : s \in {<<a>>, <<a, 10>>, <<a, 32, b, 32, a, 10>>, <<a, 32, eac, 10>>, <<eac, 32, a, 10>>, <<b, 32, b, 10>>, <<a, 32, b, 10, 10>>, <<a, 32, b, 10, a>>, <<a, 32, 32, b>>, <<32, a>>,
                           <<a, 32, b>>, <<a, 32, b, 10>>, <<>>, Version \o <<58, 32, 48, 46, 50, 10, b, 32, a>>, <<b, 32, a, 10>> \o Version \o <<10>>, Version \o <<10>> \o Version \o <<10>>, <<32>>}} \cup {Bare, [k |-> "block", how |-> 0]}
GoodV == Json(<<[t |-> <<a>>, id |-> 4], [t |-> <<b>>, id |-> 0], [t |-> <<a, b>>, id |-> 2], [t |-> <<b, a>>, id |-> 9]>>)
WrongV == {[k |-> "badjson", s |-> s] : s \in {<<>>, <<123>>, <<123, 34, 97, 34, 58, 49>>, <<123, 34, 97, 34, 58, 49, 46, 53, 125>>, <<123, 34, 97, 34, 58, 34, 49, 34, 125>>, <<91, 93>>, <<123, 125, 120>>}} \cup {Bare, [k |-> "block", how |-> 0], Json(<<>>), Json(<<[t |-> <<a>>, id |-> 1]>>)}
Setting(name, f, x) == IF x.k = "none" THEN [a |-> "rm", name |-> name, f |-> f] ELSE IF x.k = "block" THEN [a |-> "block", name |-> name, f |-> f, how |-> 0] ELSE [a |-> "put", name |-> name, f |-> f, c |-> x]
LoadStep(n) == [a |-> "load", m |-> 1, name |-> n]
SaveStep(n) == [a |-> "save", m |-> 1, name |-> n, miss |-> 0]
Lists ==
  {[c |-> Case("bpe"), l |-> <<Setting(0, "v", GoodV), Setting(0, "m", x), LoadStep(0)>>] : x \in Wrong}
  \cup {[c |-> Case("bpe"), l |-> <<SaveStep(0), Setting(0, "v", x), LoadStep(0)>>] : x \in WrongV}
  \cup {[c |-> Case(k), l |-> <<Setting(1, "v", Text(s)), LoadStep(1)>>] : k \in {"wp", "wl"}, s \in {<<>>, <<10>>, <<a, 10, b>>, U \o <<10, 10, a, 32, 10>>}}
  \cup {[c |-> [Case("bpe") EXCEPT !.models = <<Bm(Av, Backwards(Ranks(o)), <<>>)>>, !.words = <<<<a, b, a, b>>, <<b, a, a, b, a>>>>], l |-> <<SaveStep(0), LoadStep(0)>>] : o \in Orderings}
Init == /\ fs = Empty /\ rets = <<>>
        /\ \/ \E k \in Kinds : c = [Case(k) EXCEPT !.words = @] /\ todo = [l |-> <<>>, done |-> <<>>, n |-> Depth]
           \/ \E x \in Lists : c = x.c /\ todo = [l |-> x.l, done |-> <<>>, n |-> Len(x.l)]
Options == IF todo.l # <<>> THEN {todo.l[Len(todo.done) + 1]}
           ELSE {s \in Moves(c.kind) : Len(todo.done) = todo.n - 1 => s.a = "load"}
Next == /\ Len(todo.done) < todo.n
        /\ \E s \in Options : /\ Readable(c, fs, s)
                              /\ fs' = FNext(c, fs, s) /\ rets' = Append(rets, [ret |-> FRet(c, fs, s)])
                              /\ todo' = [todo EXCEPT !.done = Append(@, s)] /\ UNCHANGED c
Spec == Init /\ [][Next]_vars
Emit == Len(todo.done) = todo.n =>
  PrintT("CASE" \o ToJson([op |-> "files", kind |-> c.kind, models |-> c.models, words |-> c.words, steps |-> todo.done, exp |-> [obs |-> rets]]))
\* ------------------------------------------------------------- the properties
N == Len(todo.done)
At(i) == todo.done[i]
\* the last step that did something to place n
Touch(n) == {i \in 1..(N - 1) : At(i).a # "load" /\ At(i).name = n /\ (At(i).a = "save" => At(i).miss = 0)}
Blocked(n, i) == \E j \in 1..i : At(j).a = "block" /\ At(j).name = n /\ \A h \in (j + 1)..i : ~(At(h).a \in {"rm", "put"} /\ At(h).name = n /\ At(h).f = At(j).f)
Holds ==
  /\ \A i \in 1..N : At(i).a = "save" => (rets[i].ret.err = 0) = (IF At(i).miss = 1 THEN c.kind = "uni" ELSE ~Blocked(At(i).name, i))
  /\ (N > 0 /\ At(N).a = "load") =>
     LET n == At(N).name  r == rets[N].ret  S == Touch(n) IN
     IF S = {} THEN r = NoModel
     ELSE LET i == MaxOf(S)  m == c.models[At(i).m]  o == c.models[At(N).m] IN
       IF At(i).a = "save" /\ rets[i].ret.err = 0
       THEN IF c.kind = "uni" THEN r = ShowUni(m) ELSE m.pre = o.pre => r = Show(c.kind, IF c.kind = "bpe" THEN [o EXCEPT !.vocab = m.vocab, !.ids = m.ids, !.merges = m.merges] ELSE [o EXCEPT !.vocab = m.vocab], c.words)
       ELSE (At(i).a \in {"save", "rm", "block"} => r = NoModel)
=============================================================================
