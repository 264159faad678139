---------------------------- MODULE NormalizedMC ----------------------------
(* Exhaustive small scopes of the normalized string machine for N01, N02 and *)
(* S01; every behaviour is emitted as a test case.                           *)
EXTENDS Normalized

VARIABLES n, prev, hist, k
vars == <<n, prev, hist, k>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"

a == 97  bigA == 65  eac == 233  acute == 769  fi == 64257  sp == 32  han == 20013  dotI == 304  kel == 570

\* regular expressions
RSet(cs) == [n |-> "set", cs |-> cs, neg |-> 0]
RNot(cs) == [n |-> "set", cs |-> cs, neg |-> 1]
RCls(c) == [n |-> "cls", c |-> c, neg |-> 0]
RSeq(l, r) == [n |-> "seq", l |-> l, r |-> r]
RAlt(l, r) == [n |-> "alt", l |-> l, r |-> r]
RPlus(l) == [n |-> "plus", l |-> l]
RStar(l) == [n |-> "star", l |-> l]
ROpt(l) == [n |-> "opt", l |-> l]
Re(r) == [k |-> "re", r |-> r]
Rn(c) == [k |-> "rune", c |-> c]
St(s) == [k |-> "str", s |-> s]
Fn(c) == [k |-> "fn", c |-> c]
Inv(p) == [k |-> "inv", p |-> p]

\* N01: histories of two operations (three in the thorough tier)
Texts1 == SeqsUpTo({a, eac, fi, sp}, IF Big THEN 1 ELSE 2) \cup {<<a, acute>>, <<sp, a, sp>>, <<han, a>>, <<dotI, a>>, <<kel>>, <<eac, a, fi>>}
          \cup (IF Big THEN {<<a, acute, acute>>, <<sp, fi, kel, sp>>, <<a, -255, a>>} ELSE {<<a, -255>>})
Ops1 ==
  {[a |-> "filter", cls |-> "", cs |-> <<a>>], [a |-> "filter", cls |-> "mn", cs |-> <<>>], [a |-> "filter", cls |-> "", cs |-> <<eac, sp>>],
   [a |-> "prepend", s |-> <<eac, a>>], [a |-> "append", s |-> <<sp, eac>>], [a |-> "lower"], [a |-> "upper"],
   [a |-> "map", c |-> a, d |-> han], [a |-> "each", c |-> eac, d |-> a], [a |-> "clear"],
   [a |-> "nf", f |-> 1], [a |-> "nf", f |-> 2], [a |-> "nf", f |-> 3], [a |-> "nf", f |-> 4],
   [a |-> "strip", l |-> 1, r |-> 0], [a |-> "strip", l |-> 0, r |-> 1], [a |-> "strip", l |-> 1, r |-> 1],
   [a |-> "replace", p |-> Rn(a), s |-> <<eac, fi>>], [a |-> "replace", p |-> Re(RPlus(RSet(<<a, eac>>))), s |-> <<>>],
   [a |-> "transform", cm |-> << <<eac, 1>>, <<a, -1>>, <<fi, 1>> >>, init |-> 0],
   [a |-> "transform", cm |-> << <<a, 0>> >>, init |-> 1],
   [a |-> "normalize", p |-> [k |-> "spm", map |-> << <<<<a>>, <<>>>>, <<<<eac>>, <<fi, a>>>>, <<<<fi>>, <<>>>> >>]],
   [a |-> "range", on |-> 1, i |-> 1, j |-> 2, cm |-> << <<fi, 1>>, <<a, 0>>, <<eac, 1>> >>, init |-> 0],
   [a |-> "range", on |-> 0, i |-> 0, j |-> 1, cm |-> << <<han, 1>> >>, init |-> 0],
   [a |-> "range", on |-> 1, i |-> 0, j |-> 2, cm |-> << <<sp, 0>>, <<a, 1>> >>, init |-> 1],
   [a |-> "slice", on |-> 1, i |-> 0, j |-> 1], [a |-> "slice", on |-> 1, i |-> 1, j |-> 3],
   [a |-> "slice", on |-> 0, i |-> 0, j |-> 1], [a |-> "slice", on |-> 0, i |-> 1, j |-> 2],
   [a |-> "split", p |-> Rn(a), b |-> 1, k |-> 1], [a |-> "rebuild"]}
Queries1 == {[a |-> "conv", on |-> o, i |-> i, j |-> j] : o \in {0, 1}, i \in 0..4, j \in 0..5}
  \cup {[a |-> "slicebytes", on |-> o, i |-> i, j |-> j] : o \in {0, 1}, i \in 0..3, j \in 0..4}
  \cup {[a |-> "texts", on |-> o, i |-> i, j |-> j] : o \in {0, 1}, i \in 0..2, j \in 1..3}
  \cup {x \in {[a |-> "convert", on |-> 1, i |-> i, j |-> j, k |-> 1] : i \in 0..4, j \in 0..6} : x.i <= x.j}
Depth1 == IF Big THEN 3 ELSE 2
Steps1(d) == IF d < Depth1 - 1 \/ Depth1 = 2 THEN Ops1 ELSE Ops1
Last1(d, t) == d = 1 /\ Len(t) <= 1 \* queries right after one operation, for the shortest texts

\* N02: one normalizer on many texts
Texts2 == SeqsUpTo({a, bigA, eac, acute, fi, sp, han, 10, 8203, 8195}, IF Big THEN 3 ELSE 2)
          \cup {<<sp, a, sp, bigA, sp>>, <<10, sp>>, <<0, 9, 65533, a>>, <<dotI, kel, 7838>>, <<2503, 2494>>, <<4352, 4449, 4520>>, <<44032, 4520>>,
                <<a, 803, 769>>, <<a, 769, 803>>, <<7844, 803>>, <<2392>>, <<836, a>>, <<8491, 8486>>, <<12363, 12441>>, <<65398, 65438>>, <<64298>>,
                <<19893, 19903, 13312, 40959, 40960, 63744, 64255>>, <<131072, 173791, 173792>>, <<173824, 183983, 183984, 194560, 195103, 195104>>,
                <<a, a, a, a, bigA>>, <<173, 8205, a>>, <<9601, a>>}
Norms2 == {[k |-> "nf", f |-> f] : f \in 1..4} \cup {[k |-> "lower"], [k |-> "accents"]}
  \cup {[k |-> "default", lower |-> l, strip |-> s] : l \in {0, 1}, s \in {0, 1}}
  \cup {[k |-> "strip", l |-> l, r |-> s] : l \in {0, 1}, s \in {0, 1}}
  \cup {[k |-> "prepend", s |-> s] : s \in {<<>>, <<9601>>, <<a, sp>>}}
  \cup {[k |-> "replace", p |-> p, s |-> s] : p \in {St(<<a>>), St(<<a, a>>), St(<<sp>>), St(<<>>), Re(RPlus(RCls("aspace"))), Re(RStar(RSet(<<a>>)))}, s \in {<<>>, <<9601>>, <<a, a>>}}
  \cup {[k |-> "bert", clean |-> c, chinese |-> h, lower |-> l, accents |-> x] : c \in {0, 1}, h \in {0, 1}, l \in {0, 1}, x \in {0, 1}}
  \cup {[k |-> "seq", ps |-> ps] : ps \in {<<>>, <<[k |-> "nf", f |-> 2], [k |-> "accents"], [k |-> "lower"]>>, <<[k |-> "lower"], [k |-> "nf", f |-> 4]>>,
          <<[k |-> "prepend", s |-> <<9601>>], [k |-> "replace", p |-> St(<<sp>>), s |-> <<9601>>]>>,
          <<[k |-> "replace", p |-> St(<<sp>>), s |-> <<9601>>], [k |-> "strip", l |-> 1, r |-> 1], [k |-> "prepend", s |-> <<a>>]>>}}
\* precompiled maps, on clusters of characters
Texts2M == SeqsUpTo({a, eac, acute, sp, 13, 10, 8205}, IF Big THEN 4 ELSE 3)
           \cup {<<127462, 127462, 127462, a>>, <<4352, 4449, 4520, 4520, 4449>>, <<44032, 4520, 4449>>, <<128512, 65039, 8205, 128104, 127997, a>>,
                 <<128104, 8205, 8205, 128104>>, <<1536, a, acute>>, <<3585, 3635, a>>, <<2503, 2494, 2503>>, <<han, acute, acute, a>>, <<han, acute, a>>,
                 <<a, -195, acute, a>>, <<169, 8205, 174>>, <<a, 0, a>>, <<fi, 65533, a>>}
Norms2M == {[k |-> "spm", map |-> m] : m \in {<<>>, << <<<<a>>, <<bigA>>>> >>, << <<<<a>>, <<>>>>, <<<<sp>>, <<9601, sp>>>> >>, << <<<<a, acute>>, <<eac>>>>, <<<<acute>>, <<>>>> >>,
              << <<<<eac>>, <<a, acute, acute>>>>, <<<<acute>>, <<han>>>>, <<<<13, 10>>, <<10>>>> >>,
              << <<<<13>>, <<sp>>>>, <<<<13, 10>>, <<a>>>>, <<<<eac, acute>>, <<a>>>>, <<<<127462, 127462>>, <<a, a>>>>, <<<<han, acute>>, <<>>>> >>,
              << <<<<128512>>, <<58, 41>>>>, <<<<8205>>, <<>>>>, <<<<4352>>, <<a>>>>, <<<<44032, 4520>>, <<a, a>>>>, <<<<65533>>, <<a>>>> >>}}
\* every character
Texts2C == {<<c, a>> : c \in Known}
Norms2C == {[k |-> "nf", f |-> f] : f \in 1..4} \cup {[k |-> "lower"], [k |-> "accents"], [k |-> "strip", l |-> 1, r |-> 1]}
  \cup {[k |-> "bert", clean |-> x, chinese |-> 1 - x, lower |-> 0, accents |-> 0] : x \in {0, 1}}

\* S01: patterns and delimiter behaviours
x == 120
Pats3 == {Rn(a), Rn(eac), St(<<a>>), St(<<a, a>>), St(<<a, eac>>), St(<<>>), Fn("bspace"), Fn("let"), Fn("high"),
          Re(RSet(<<a>>)), Re(RPlus(RSet(<<a>>))), Re(RStar(RSet(<<a>>))), Re(RAlt(RSeq(RSet(<<a>>), RSet(<<eac>>)), RPlus(RSet(<<eac>>)))),
          Re(RSeq(ROpt(RSet(<<sp>>)), RPlus(RCls("let")))), Re(RPlus(RNot(<<a>>)))}
InvPats3 == Pats3 \cup {Inv(p) : p \in Pats3} \cup {Inv(Inv(Rn(a)))}
Texts3 == SeqsUpTo({a, eac, sp}, IF Big THEN 6 ELSE 4) \cup {<<a, -200, a>>, <<a, 65533, a>>, <<65533, eac>>}
Steps3(d) == {[a |-> "match", p |-> p] : p \in InvPats3} \cup {[a |-> "split", p |-> p, b |-> b, k |-> 0] : p \in InvPats3, b \in 0..4}

\* N01 also starts from slices
Starts == IF Prop # "N01" THEN {} ELSE
  {<<t, [a |-> "slice", on |-> o, i |-> 1, j |-> 4]>> : t \in {<<a, eac, sp, a, fi>>, <<eac, a, a, acute, a>>}, o \in {0, 1}}
  \cup {<< <<eac, sp, eac, sp, a, fi>>, [a |-> "split", p |-> Rn(sp), b |-> 3, k |-> 2]>>}
Texts == CASE Prop = "N01" -> Texts1 [] Prop = "N02" -> Texts2 \cup Texts2M \cup Texts2C [] Prop = "S01" -> Texts3
StepsAt(d, t) == CASE Prop = "N01" -> (IF Last1(d, t) THEN Ops1 \cup Queries1 ELSE Steps1(d))
                   [] Prop = "N02" -> {[a |-> "normalize", p |-> p] : p \in (IF t \in Texts2 THEN Norms2 ELSE IF t \in Texts2M THEN {} ELSE Norms2C) \cup (IF t \in Texts2M THEN Norms2M ELSE {})} \cup (IF t \in Texts2C THEN {[a |-> "kinds"]} ELSE {})
                   [] Prop = "S01" -> Steps3(d)
Depth == CASE Prop = "N01" -> Depth1 [] OTHER -> 1

Init ==
  \/ \E t \in Texts :
       /\ n = From(t) /\ prev = From(t) /\ k = 0
       /\ hist = [text |-> t, steps |-> <<>>, obs |-> <<>>]
  \/ \E st \in Starts :
       LET r == Step(From(st[1]), st[2]) IN
       /\ n = r.n /\ prev = From(st[1]) /\ k = 0
       /\ hist = [text |-> st[1], steps |-> <<st[2]>>, obs |-> << [n |-> View(r.n), ret |-> r.ret] >>]
Next == /\ k < Depth
        /\ \E s \in StepsAt(k, hist.text) :
             LET r == Step(n, s) IN
             /\ n' = r.n /\ prev' = n /\ k' = k + 1
             /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [n |-> View(r.n), ret |-> r.ret])]
Spec == Init /\ [][Next]_vars

Emit == k = Depth => PrintT("CASE" \o ToJson([op |-> "norm", text |-> hist.text, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

------------------------------------------------ \* property predicates
Last == hist.steps[Len(hist.steps)]
Ret == hist.obs[Len(hist.obs)].ret
NonDecr(s) == \A i \in 1..(Len(s) - 1) : s[i][1] <= s[i + 1][1] /\ s[i][2] <= s[i + 1][2]
\* N01
AlignOk(m) ==
  LET al == ByteAligns(m.norm)
      ao == OrigAligns(m)
      L == Bytes(m.orig)
      T == Bytes(Text(m))
  IN /\ Len(al) = T /\ Len(ao) = L
     /\ NonDecr(al) /\ NonDecr(ao)
     /\ \A i \in 1..Len(al) : 0 <= al[i][1] /\ al[i][1] <= al[i][2] /\ al[i][2] <= L /\ al[i][1] \in Boundaries(m.orig) /\ al[i][2] \in Boundaries(m.orig)
     /\ \A i \in 1..Len(ao) : 0 <= ao[i][1] /\ ao[i][1] <= ao[i][2] /\ ao[i][2] <= T /\ ao[i][1] \in Boundaries(Text(m)) /\ ao[i][2] \in Boundaries(Text(m))
     \* removed text maps to an empty span
     /\ \A p \in 1..L : (\A i \in 1..Len(m.norm) : ~(m.norm[i].a < p /\ p <= m.norm[i].b)) => ao[p][1] = ao[p][2]
     \* a character alone on its span maps to exactly itself, both ways
     /\ \A i \in 1..Len(m.norm) :
          LET y == m.norm[i] IN
          (y.a < y.b /\ \A j \in 1..Len(m.norm) : j # i => m.norm[j].b <= y.a \/ m.norm[j].a >= y.b)
             => \A p \in (y.a + 1)..y.b : ao[p] = <<PosOf(Text(m), i - 1), PosOf(Text(m), i)>>
\* the characters an operation leaves alone keep their place
Untouched(old, new, P(_)) ==
  \A i \in 1..Len(old.norm) : P(old.norm[i]) => \E j \in 1..Len(new.norm) : new.norm[j] = [old.norm[i] EXCEPT !.c = Rune(@)]
RECURSIVE Dropped(_, _)
Dropped(s, p) == IF p <= 0 THEN s ELSE Dropped(Tail(s), p - Width(Head(s)))
PropN01 ==
  /\ AlignOk(n)
  /\ n.sh + Bytes(n.orig) <= Bytes(hist.text)
  /\ IsPrefixOf(n.orig, Dropped(hist.text, n.sh))
  /\ k > 0 /\ Last.a \notin {"slice", "split"} => n.orig = prev.orig /\ n.sh = prev.sh
  /\ k > 0 /\ Last.a = "filter" => Untouched(prev, n, LAMBDA y : ~(IF Last.cls = "" THEN Rune(y.c) \in Range(Last.cs) ELSE InClass(Last.cls, Rune(y.c))))
  /\ k > 0 /\ Last.a \in {"prepend", "append"} => Len(n.norm) = (IF prev.norm = <<>> THEN 0 ELSE Len(prev.norm) + Len(Last.s))
  /\ k > 0 /\ Last.a = "replace" => Untouched(prev, n, LAMBDA y : y.c \notin {a, eac} /\ y.c >= 0)
  /\ k > 0 /\ Last.a \in {"lower", "upper", "map", "each"} => Len(n.norm) = Len(prev.norm) /\ \A i \in 1..Len(n.norm) : n.norm[i].a = prev.norm[i].a /\ n.norm[i].b = prev.norm[i].b
  /\ k > 0 /\ Last.a = "conv" /\ Ret # <<>> /\ Last.i < Last.j => Ret[1] <= Ret[2]
  /\ k > 0 /\ Last.a = "convert" /\ -1 \notin Range(Ret.chars) => \A e \in 1..2 : PosOf(Text(n), Ret.chars[e]) = <<Last.i, Last.j>>[e]

\* N02
Out == Text(n)
In == [i \in 1..Len(prev.norm) |-> Rune(prev.norm[i].c)]
Stable(f, s) == Form(f, s) = s
PropN02 ==
  k > 0 /\ Last.a = "normalize" =>
    LET p == Last.p IN
    /\ AlignOk(n)
    /\ prev.norm = <<>> => Out = <<>>
    /\ p.k = "nf" => Stable(p.f, Out) /\ (p.f = 1 => Form(2, Out) = Form(2, In)) /\ Out = Form(p.f, In)
    /\ p.k = "lower" => Len(Out) = Len(In) /\ \A i \in 1..Len(Out) : Out[i] = Lower(In[i])
    /\ p.k = "accents" => \A i \in 1..Len(Out) : ~IsMn(Out[i])
    /\ p.k = "strip" => /\ \E i \in 0..Len(In) : IsPrefixOf(Out, Drop(In, i))
                        /\ p.l = 1 /\ Out # <<>> => ~IsSpace(Out[1])
                        /\ p.r = 1 /\ Out # <<>> => ~IsSpace(Out[Len(Out)])
                        /\ Len(SelectSeq(Out, LAMBDA c : ~IsSpace(c))) = Len(SelectSeq(In, LAMBDA c : ~IsSpace(c)))
    /\ p.k = "spm" => /\ p.map = <<>> => n = prev
                       /\ LET ps == MapPieces(p.map, Text(prev)) IN
                            /\ Flatten([i \in 1..Len(ps) |-> ps[i].old]) \in {Text(prev), In}
                            /\ Out \in {Text(prev), Flatten([i \in 1..Len(ps) |-> IF ps[i].to = <<>> THEN ps[i].old ELSE ps[i].to[1]])}
                       /\ (\A i \in 1..Len(p.map) : Len(p.map[i][1]) = 1 /\ p.map[i][2] # <<>> /\ p.map[i][1][1] \notin Range(p.map[i][2])) =>
                            \A i \in 1..Len(p.map) : p.map[i][1][1] \notin (Range(Out) \ UNION {Range(p.map[j][2]) : j \in 1..Len(p.map)})
    /\ p.k = "prepend" /\ In # <<>> => Out = p.s \o In
    /\ p.k = "bert" => /\ p.clean = 1 => \A i \in 1..Len(Out) : Out[i] \notin {0, 9, 10, 13, Bad} /\ ~BertControl(Out[i])
                       /\ p.chinese = 1 /\ p.accents = 0 => \A i \in 1..Len(Out) : Chinese(Out[i]) => 1 < i /\ i < Len(Out) /\ Out[i - 1] = 32 /\ Out[i + 1] = 32
                       /\ p.accents = 1 => \A i \in 1..Len(Out) : ~IsMn(Out[i])
\* S01
PropS01 ==
  LET t == Text(prev) IN
  /\ k > 0 /\ Last.a = "match" =>
       /\ Len(Ret) > 0 /\ Ret[1][1] = 0 /\ Ret[Len(Ret)][2] = Bytes(t)
       /\ \A i \in 1..(Len(Ret) - 1) : Ret[i][2] = Ret[i + 1][1]
       /\ t # <<>> => \A i \in 1..Len(Ret) : Ret[i][1] < Ret[i][2]
       /\ Last.p.k = "rune" => \A i \in 1..Len(Ret) : Ret[i][3] = 1 <=> (Ret[i][1] < Bytes(t) /\ t[CharAt(t, Ret[i][1]) + 1] = Last.p.c)
       /\ Last.p.k = "str" /\ Last.p.s # <<>> =>   \* leftmost: no occurrence starts inside an unmatched tile and ends in it
            \A i \in 1..Len(Ret) : Ret[i][3] = 0 =>
              LET u == SubSeq(t, CharAt(t, Ret[i][1]) + 1, CharAt(t, Ret[i][2])) IN \A j \in 0..Len(u) : ~IsPrefixOf(Last.p.s, Drop(u, j))
  /\ k > 0 /\ Last.a = "split" =>
       /\ Last.b # 0 => Flatten([i \in 1..Len(Ret) |-> Ret[i].norm]) = t
       /\ Last.b = 0 => Len(Flatten([i \in 1..Len(Ret) |-> Ret[i].norm])) = SumSeq([i \in 1..Len(Matches(Last.p, t)) |-> LET m == Matches(Last.p, t)[i] IN IF m[3] = 0 THEN m[2] - m[1] ELSE 0])
       /\ \A i \in 1..Len(Ret) : t # <<>> => Ret[i].norm # <<>> /\ Ret[i].sh = prev.sh + PosOf(prev.orig, CharAt(prev.orig, Ret[i].sh - prev.sh))
Holds == CASE Prop = "N01" -> PropN01 [] Prop = "N02" -> PropN02 [] Prop = "S01" -> PropS01
============================================================================
