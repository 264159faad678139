---------------------------- MODULE EncodingMC ----------------------------
(* Exhaustive small-scope exploration of the encoding machine.  Every       *)
(* history is checked against the property predicates below (written        *)
(* independently of the operators of Encoding) and emitted as a case that   *)
(* is replayed on the real code.                                            *)
EXTENDS Encoding, Json, IOUtils

Prop == IOEnv.PROP
Big  == IOEnv.TIER = "thorough"

VARIABLES slots, prev, hist, k
vars == <<slots, prev, hist, k>>

Tk(i) == <<96 + i>>
Tok(id, ty, tk, o1, o2, w, sp) == [id |-> id, ty |-> ty, tk |-> tk, o1 |-> o1, o2 |-> o2, w |-> w, sp |-> sp, at |-> 1]
\* n plain tokens of two characters each, two tokens per word
Plain2(n, base, ty, words) ==
  [i \in 1..n |-> Tok(base + i, ty, Tk(i), 3 * i - 3, 3 * i - 1, IF words THEN (i - 1) \div 2 ELSE Missing, 0)]
FlatN(n, base, ty, words, rng) == Flat(Plain2(n, base, ty, words), IF rng /\ n > 0 THEN << <<ty, 0, n>> >> ELSE <<>>)
EncN(n, base, ty, words, rng, over) ==
  LET m == FlatN(n, base, ty, words, rng) IN Enc(m.t, over, m.rng)

-------------------------------------------------------------- \* scopes
PadP(left, id) == [id |-> id, ty |-> 1, tk |-> <<80>>, left |-> left]

\* E01: all lengths, limits, strides, strategies
N1 == IF Big THEN 8 ELSE 5
Init1(v) == \E n1 \in 0..N1, n2 \in 0..N1 : v = <<EncN(n1, 100, 0, TRUE, FALSE, <<>>), EncN(n2, 200, 1, TRUE, FALSE, <<>>)>>
Steps1(n) ==
  IF n = 0 THEN
    [a : {"trunc"}, i : {1}, max : 0..(N1 + 1), stride : 0..N1]
    \cup [a : {"trunc2"}, i : {1}, j : {0, 2}, max : 1..(2 * N1 + 1), strat : 0..2, stride : 0..(IF Big THEN 5 ELSE 3)]
  ELSE IF n = 1 THEN {[a |-> "padall", target |-> N1 + 3, p |-> PadP(0, 7)]}
  ELSE {}
Depth1 == 2

\* E02: lengths, overflow parts, words, ranges; both sides; padding twice
Overs2(base, ty, words) == {<<>>, <<FlatN(1, base, ty, words, TRUE)>>, <<FlatN(4, base, ty, words, FALSE), FlatN(2, base + 20, ty, words, TRUE)>>}
Init2(v) == \E n1 \in 0..3, n2 \in {0, 2, 5}, w \in BOOLEAN, r \in BOOLEAN, o \in Overs2(300, 0, TRUE) :
              v = <<EncN(n1, 100, 0, w, r, o), EncN(n2, 200, 1, TRUE, TRUE, <<>>)>>
Steps2(n) ==
  LET pads(T) == [a : {"pad"}, i : {1}, target : T, p : {PadP(0, 7), PadP(1, 8)}]
                 \cup [a : {"padall"}, target : T \cup {-1}, p : {PadP(0, 7), PadP(1, 8)}]
  IN IF n = 0 THEN pads(0..5)
     ELSE IF n = 1 THEN {[a |-> "copy", i |-> 1, j |-> 2]}
     ELSE IF n = 2 THEN (IF Big THEN pads({4, 6, 8}) ELSE {[a |-> "pad", i |-> 1, target |-> 6, p |-> PadP(0, 9)]})
     ELSE {[a |-> "pad", i |-> 2, target |-> 7, p |-> PadP(0, 10)]}
Depth2 == 4

\* E03: merging with overflow parts and ranges, three encodings
Overs3(base, ty) == {<<>>, <<FlatN(1, base, ty, TRUE, FALSE)>>, <<FlatN(2, base, ty, TRUE, TRUE), FlatN(1, base + 20, ty, TRUE, TRUE)>>}
Enc3(base, ty) == {EncN(n, base, ty, w, r, o) : n \in 0..2, w \in (IF Big THEN BOOLEAN ELSE {TRUE}), r \in BOOLEAN, o \in Overs3(base + 50, ty)}
Init3(v) == \E a \in Enc3(100, 0), b \in Enc3(200, 1),
               c \in {EncN(1, 300, 2, TRUE, TRUE, <<>>), EncN(2, 300, 2, FALSE, FALSE, <<FlatN(1, 350, 2, TRUE, FALSE)>>)} :
              v = <<a, b, c>>
Steps3(n) ==
  IF n = 0 THEN {[a |-> "copy", i |-> 1, j |-> 3], [a |-> "clone", i |-> 2, j |-> 3], [a |-> "fromtoks", i |-> 3, j |-> 1, ty |-> 2], [a |-> "seqids", i |-> 1, ty |-> 1], [a |-> "seqids", i |-> 3, ty |-> 0],
                 [a |-> "types", i |-> 2, ty |-> 3], [a |-> "setword", i |-> 1, n |-> 0, ty |-> 5], [a |-> "take", i |-> 1], [a |-> "give", i |-> 3, j |-> 2], [a |-> "merge", i |-> 3, j |-> 1, grow |-> 0], [a |-> "mergeall", grow |-> 1, n |-> 1]}
  ELSE IF n = 1 THEN [a : {"merge"}, i : {1}, j : {2}, grow : {0, 1}]
  ELSE IF n = 2 THEN {[a |-> "merge", i |-> 3, j |-> 2, grow |-> 1]}
  ELSE {}
Depth3 == 3
Rare == {"clone", "fromtoks", "seqids", "types", "setword", "take", "give"}

\* E04: every processor on single and pair encodings with overflow parts
Sp(id) == [id |-> id, tk |-> <<91, id>>]
CLS == Sp(901)
SEP == Sp(902)
PS(s, ty) == [k |-> "seq", s |-> s, ty |-> ty]
PT(toks, ty) == [k |-> "sp", ty |-> ty, toks |-> toks]
BL(trim, prefix) == [k |-> "bytelevel", trim |-> trim, prefix |-> prefix]
Tpl(single, pair) == [k |-> "tpl", single |-> single, pair |-> pair]
Tpls == {
  Tpl(<<PT(<<CLS>>, 0), PS(0, 0), PT(<<SEP>>, 0)>>, <<PT(<<CLS>>, 0), PS(0, 0), PT(<<SEP>>, 0), PS(1, 1), PT(<<SEP>>, 1)>>),
  Tpl(<<PS(0, 2), PT(<<SEP>>, 0), PT(<<CLS>>, 2)>>, <<PS(0, 0), PT(<<SEP>>, 0), PS(1, 1), PT(<<SEP>>, 1), PT(<<CLS>>, 2)>>),
  Tpl(<<PT(<<CLS, SEP>>, 1), PS(0, 1)>>, <<PT(<<CLS, SEP>>, 1), PS(1, 0), PS(0, 1), PT(<<CLS>>, 0)>>),
  Tpl(<<PS(0, 0)>>, <<PS(0, 0), PS(1, 1)>>),
  Tpl(<<PS(0, 0), PT(<<SEP>>, 1)>>, <<PS(1, 2), PS(0, 1)>>)}
Procs == Tpls
  \cup {[k |-> "none"], [k |-> "bert", cls |-> CLS, sep |-> SEP]}
  \cup [k : {"roberta"}, cls : {CLS}, sep : {SEP}, trim : {0, 1}, prefix : {0, 1}]
  \cup {BL(0, 0), BL(1, 0), BL(1, 1)}
  \cup {[k |-> "sequ", ps |-> <<BL(1, pf), t>>] : pf \in {0, 1}, t \in Tpls}
  \cup {[k |-> "sequ", ps |-> <<t, BL(1, 0)>>] : t \in Tpls}
  \cup {[k |-> "sequ", ps |-> <<[k |-> "bert", cls |-> CLS, sep |-> SEP]>>]}
Sp4(n, base, ty, words) ==   \* tokens with spaces to trim
  [i \in 1..n |-> Tok(base + i, ty, IF i % 2 = 1 THEN <<SpaceCh, SpaceCh, 97>> ELSE <<SpaceCh, 98, SpaceCh>>, 4 * i - 4, 4 * i - 1, IF words THEN i - 1 ELSE Missing, 0)]
Enc4(base, ty) == {Enc(Sp4(n, base, ty, w), o, <<>>) : n \in 0..2, w \in (IF Big THEN BOOLEAN ELSE {TRUE}),
                     o \in {<<>>, <<Flat(Sp4(2, base + 50, ty, TRUE), <<>>)>>,
                            <<Flat(Sp4(1, base + 50, ty, TRUE), <<>>), Flat(Sp4(1, base + 60, ty, TRUE), <<>>)>>}}
Init4(v) == \E a \in Enc4(100, 0) \cup {EncN(2, 120, 0, FALSE, FALSE, <<>>)}, b \in Enc4(200, 1) : v = <<a, b>>
Steps4(n) ==
  IF n = 0 THEN [a : {"proc"}, i : {1}, j : {0, 2}, add : {0, 1}, p : Procs] ELSE {}
Depth4 == 1

\* E05: all token arrays, ranges
Lens5 == IF Big THEN 0..2 ELSE {0, 2}
Tok5 == {<<l, g, w>> : l \in Lens5, g \in 0..1, w \in {-1, 0, 1}}
RECURSIVE Lay(_, _, _)
Lay(ts, pos, i) ==
  IF ts = <<>> THEN <<>>
  ELSE LET x == Head(ts)
           special == x[3] = -1 /\ x[1] = 0
           s == pos + x[2] IN
       IF special THEN <<Tok(i, 0, <<91>>, 0, 0, -1, 1)>> \o Lay(Tail(ts), pos, i + 1)
       ELSE <<Tok(i, 0, <<97>>, s, s + x[1], x[3], 0)>> \o Lay(Tail(ts), s + x[1], i + 1)
Rng5(n) == {<<>>} \cup (IF n >= 1 THEN {<< <<0, 0, n>> >>} ELSE {})
                  \cup (IF n >= 2 THEN {<< <<0, 0, 1>>, <<1, 1, n>> >>, << <<0, 1, n>> >>, << <<0, 0, 1>>, <<1, n - 1, n>> >>} ELSE {})
                  \cup (IF n >= 2 THEN {<< <<1, 0, 1>>, <<2, 1, 2>> >>} ELSE {})
Init5(v) == \E n \in 0..3 : \E ts \in [1..n -> Tok5], r \in Rng5(n) : v = <<Enc(Lay(ts, 0, 1), <<>>, r)>>
Steps5(n) == IF n = 0 THEN {[a |-> "look", i |-> 1, n |-> 8]} ELSE {}
Depth5 == 1

Inits(v) == CASE Prop = "E01" -> Init1(v) [] Prop = "E02" -> Init2(v) [] Prop = "E03" -> Init3(v) [] Prop = "E04" -> Init4(v) [] Prop = "E05" -> Init5(v)
StepsAt(n) == CASE Prop = "E01" -> Steps1(n) [] Prop = "E02" -> Steps2(n) [] Prop = "E03" -> Steps3(n) [] Prop = "E04" -> Steps4(n) [] Prop = "E05" -> Steps5(n)
Depth == CASE Prop = "E01" -> Depth1 [] Prop = "E02" -> Depth2 [] Prop = "E03" -> Depth3 [] Prop = "E04" -> Depth4 [] Prop = "E05" -> Depth5

Init == /\ Inits(slots)
        /\ prev = slots
        /\ hist = [init |-> slots, steps |-> <<>>, obs |-> <<>>]
        /\ k = 0
Next == /\ k < Depth
        /\ \E s \in {x \in StepsAt(k) : x.a \in Rare => Len(slots[1].t) = 2 /\ Len(slots[2].t) # 1 /\ Len(slots[3].t) = 1} :
             LET r == Apply(slots, s) IN
             /\ slots' = r.slots
             /\ prev' = slots
             /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, r)]
             /\ k' = k + 1

Emit == k = Depth =>
  PrintT("CASE" \o ToJson([op |-> "enc", init |-> hist.init, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

--------------------------------------------------- \* property predicates
Last == hist.steps[k]
Ret == hist.obs[k].ret
Did(a) == k > 0 /\ Last.a = a

\* the windows of a truncated encoding give back what was removed
RECURSIVE Rebuild(_, _, _)
Rebuild(acc, over, stride) ==
  IF over = <<>> THEN acc ELSE Rebuild(acc \o Drop(Head(over).t, stride), Tail(over), stride)
TruncOk(old, new, stride) ==
  LET n == Len(new.t) IN
  IF n = Len(old.t) THEN new = old
  ELSE /\ IsPrefixOf(new.t, old.t)
       /\ new.rng = <<>>
       /\ n > 0 /\ stride < n =>
            /\ Rebuild(new.t, new.over, stride) = old.t
            /\ \A i \in 1..Len(new.over) :
                 LET pr == IF i = 1 THEN new.t ELSE new.over[i - 1].t
                 IN /\ Len(new.over[i].t) <= n
                    /\ Len(new.over[i].t) > stride
                    /\ Take(new.over[i].t, stride) = Drop(pr, Len(pr) - stride)
PropE01 ==
  /\ Did("trunc") /\ Ret = Ok => /\ Len(slots[1].t) = Min2(Len(prev[1].t), Last.max)
                                 /\ TruncOk(prev[1], slots[1], Last.stride)
  /\ Did("trunc2") /\ Ret = Ok =>
       LET pairLen(ss) == Len(ss[1].t) + (IF Last.j = 0 THEN 0 ELSE Len(ss[2].t))
           n1 == Len(slots[1].t)
           n2 == IF Last.j = 0 THEN 0 ELSE Len(slots[2].t)
       IN /\ pairLen(slots) = Min2(pairLen(prev), Last.max)
          /\ TruncOk(prev[1], slots[1], Last.stride)
          /\ TruncOk(prev[2], slots[2], Last.stride)
          /\ Last.strat = 1 => slots[2] = prev[2]
          /\ Last.strat = 2 => slots[1] = prev[1]
          /\ Last.j = 0 => slots[2] = prev[2]
          \* longest first: a sequence is only shortened while it is the longer one
          /\ Last.strat = 0 /\ Last.j # 0 /\ n1 < Len(prev[1].t) => n1 >= n2
          /\ Last.strat = 0 /\ Last.j # 0 /\ n2 < Len(prev[2].t) => n2 + 1 >= n1

PadOk(old, new, target, p) ==
  LET n == target - Len(old.t) IN
  IF n <= 0 THEN new = old
  ELSE /\ Len(new.t) = target
       /\ LET body == IF p.left = 1 THEN Drop(new.t, n) ELSE Take(new.t, Len(old.t))
              pads == IF p.left = 1 THEN Take(new.t, n) ELSE Drop(new.t, Len(old.t))
          IN /\ body = FillWords(old.t)
             /\ \A i \in 1..Len(pads) : pads[i].at = 0 /\ pads[i].sp = 1 /\ pads[i].w = -1 /\ pads[i].id = p.id
                                        /\ pads[i].ty = p.ty /\ pads[i].tk = p.tk /\ pads[i].o1 = 0 /\ pads[i].o2 = 0
       /\ Len(new.rng) = Len(old.rng)
       /\ \A i \in 1..Len(old.rng) :
            /\ new.rng[i][1] = old.rng[i][1]
            /\ Slice(new.t, new.rng[i][2], new.rng[i][3]) = Slice(FillWords(old.t), old.rng[i][2], old.rng[i][3])
PadEncOk(old, new, target, p) ==
  /\ PadOk(Main(old), Main(new), target, p)
  /\ Len(new.over) = Len(old.over)
  /\ \A i \in 1..Len(old.over) : PadOk(old.over[i], new.over[i], target, p)
PropE02 ==
  /\ Did("pad") => PadEncOk(prev[Last.i], slots[Last.i], Last.target, Last.p)
  /\ Did("padall") =>
       LET target == IF Last.target >= 0 THEN Last.target ELSE Longest(prev)
       IN \A i \in 1..Len(slots) : PadEncOk(prev[i], slots[i], target, Last.p)
  /\ (Did("padall") /\ Last.target < 0) => \A i, j \in 1..Len(slots) : Len(slots[i].t) = Len(slots[j].t)

SameToks(s, t) == Len(s) = Len(t) /\ \A i \in 1..Len(s) : s[i].id = t[i].id /\ s[i].tk = t[i].tk /\ s[i].ty = t[i].ty /\ s[i].sp = t[i].sp /\ s[i].at = t[i].at
RngToks(f, r) == Slice(f.t, r[2], r[3])
PropE03 ==
  Did("merge") =>
    LET a == prev[Last.i]
        b == prev[Last.j]
        m == slots[Last.i] IN
    /\ SameToks(m.t, a.t \o b.t)
    /\ slots[Last.j] = b
    /\ Len(m.over) = Len(a.over) * (1 + Len(b.over)) + Len(b.over)
    /\ \A i \in 1..Len(a.over), j \in 0..Len(b.over) :
         SameToks(m.over[(i - 1) * (1 + Len(b.over)) + j + 1].t, a.over[i].t \o (IF j = 0 THEN b.t ELSE b.over[j].t))
    /\ \A j \in 1..Len(b.over) : SameToks(m.over[Len(a.over) * (1 + Len(b.over)) + j].t, a.t \o b.over[j].t)
    /\ \A x \in 1..Len(b.rng) : \E y \in 1..Len(m.rng) : m.rng[y][1] = b.rng[x][1] /\ SameToks(RngToks(m, m.rng[y]), RngToks(b, b.rng[x]))
    /\ \A x \in 1..Len(a.rng) :
         (\A y \in 1..Len(b.rng) : b.rng[y][1] # a.rng[x][1]) => \E y \in 1..Len(m.rng) : m.rng[y][1] = a.rng[x][1] /\ SameToks(RngToks(m, m.rng[y]), RngToks(a, a.rng[x]))
    /\ LET s == IF Last.grow = 1 /\ a.t # <<>> THEN a.t[Len(a.t)].o2 ELSE 0 IN
         \A i \in 1..Len(b.t) : m.t[Len(a.t) + i].o1 = b.t[i].o1 + s /\ m.t[Len(a.t) + i].o2 = b.t[i].o2 + s

NonSpecial(t) == SelectSeq(t, LAMBDA x : x.sp = 0)
Ids(t) == [i \in 1..Len(t) |-> t[i].id]
PropE04 ==
  Did("proc") =>
    LET a == prev[1]
        hasB == Last.j # 0
        b == IF hasB THEN prev[2] ELSE Empty
        m == slots[1]
        tplOf == IF hasB THEN Last.p.pair ELSE Last.p.single
        swapped == Last.p.k = "tpl" /\ hasB /\ \E i, j \in 1..Len(tplOf) : i < j /\ tplOf[i].k = "seq" /\ tplOf[j].k = "seq" /\ tplOf[i].s = 1
        swapped2 == Last.p.k = "sequ" /\ hasB /\ Len(Last.p.ps) > 1 /\ \E q \in {x \in 1..2 : Last.p.ps[x].k = "tpl"} : \E i, j \in 1..Len(Last.p.ps[q].pair) :
                       i < j /\ Last.p.ps[q].pair[i].k = "seq" /\ Last.p.ps[q].pair[j].k = "seq" /\ Last.p.ps[q].pair[i].s = 1
        text == IF swapped \/ swapped2 THEN b.t \o a.t ELSE a.t \o b.t
        nOver == Len(a.over) * (1 + Len(b.over)) + Len(b.over)
    IN /\ Ids(NonSpecial(m.t)) = Ids(text)                     \* nothing lost, nothing reordered
       /\ Len(m.t) = Len(text) + (IF Last.add = 1 THEN Ret[2] ELSE 0)   \* announced = inserted
       /\ \A i \in 1..Len(m.t) : m.t[i].sp = 1 => m.t[i].o1 = 0 /\ m.t[i].o2 = 0 /\ m.t[i].w < 0 /\ m.t[i].at = 1
       /\ Len(m.over) = nOver
       /\ \A o \in 1..Len(m.over) :
            Len(m.over[o].t) - Len(NonSpecial(m.over[o].t)) = (IF Last.add = 1 THEN Ret[2] ELSE 0)
       \* each sequence range designates exactly the tokens of its sequence
       /\ \A x \in 1..Len(m.rng) : Ids(RngToks(m, m.rng[x])) = Ids(IF m.rng[x][1] = 0 THEN a.t ELSE b.t)

PropE05 ==
  Did("look") =>
    LET e == slots[1] IN
    \A i \in -1..8 :
      /\ Ret.w2t[i + 2] # <<>> =>
           LET r == Ret.w2t[i + 2] IN
           /\ e.t[r[1] + 1].w = i /\ e.t[r[2]].w = i
           /\ \A q \in 1..r[1] : e.t[q].w # i
           /\ Ret.w2c[i + 2] = <<e.t[r[1] + 1].o1, e.t[r[2]].o2>>
      /\ Ret.w2t[i + 2] = <<>> => (i < 0 \/ \A q \in 1..Len(e.t) : e.t[q].w # i) /\ Ret.w2c[i + 2] = <<>>
      /\ Ret.c2t[i + 2] # <<>> => LET q == Ret.c2t[i + 2][1] + 1 IN e.t[q].o1 <= i /\ i < e.t[q].o2 /\ Ret.c2w[i + 2] = Ret.t2w[q + 1]
      /\ (i >= 0 /\ i < Len(e.t) /\ e.rng = <<>>) => Ret.t2s[i + 2] = <<0>>
      /\ (i < 0 \/ i >= Len(e.t)) => Ret.t2s[i + 2] = <<>> /\ Ret.t2w[i + 2] = <<>> /\ Ret.t2c[i + 2] = <<>>

\* no token belongs to two sequences
PropRanges ==
  \A i \in 1..Len(slots) :
    LET r == slots[i].rng IN
    \A x \in 1..Len(r) : 0 <= r[x][2] /\ r[x][2] <= r[x][3] /\ r[x][3] <= Len(slots[i].t)
                        /\ \A y \in 1..(x - 1) : r[x][1] # r[y][1] /\ (r[x][3] <= r[y][2] \/ r[y][3] <= r[x][2])

Holds == PropRanges /\ PropE01 /\ PropE02 /\ PropE03 /\ PropE04 /\ PropE05
Spec == Init /\ [][Next]_vars
============================================================================
