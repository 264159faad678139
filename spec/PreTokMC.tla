------------------------------ MODULE PreTokMC ------------------------------
(* Exhaustive small scopes of the pre-tokenized string for S02 and S03.      *)
EXTENDS PreTok

VARIABLES pt, prev, hist, k
vars == <<pt, prev, hist, k>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
a == 97  eac == 233  sp == 32  comma == 44  one == 49  nbsp == 160  nl == 10  han == 28450  kana == 12354  meta == 9601

P(kind) == [k |-> kind]
Punct(b) == [k |-> "punct", b |-> b]
Digits(i) == [k |-> "digits", ind |-> i]
Delim(c) == [k |-> "delim", c |-> c]
Meta(s, m) == [k |-> "meta", s |-> s, scheme |-> m]
BL(p) == [k |-> "bl", prefix |-> p, trim |-> 1]
Spl(p, b, i) == [k |-> "split", p |-> p, b |-> b, inv |-> i]
Rn(c) == [k |-> "rune", c |-> c]
PSeq(ps) == [k |-> "seq", ps |-> ps]
Simple == {P("ws"), P("wssplit"), P("bert"), P("script"), Digits(0), Digits(1), Delim(sp), Delim(eac), BL(0), BL(1)}
  \cup {Punct(b) : b \in 0..4} \cup {Meta(<<meta>>, m) : m \in 0..2} \cup {Meta(<<46>>, 2), Meta(<<eac, a>>, 1)}
  \cup {Spl(p, b, i) : p \in {Rn(a), StrPat(<<sp>>), [k |-> "re", r |-> [n |-> "plus", l |-> [n |-> "set", cs |-> <<a, one>>, neg |-> 0]]]}, b \in {0, 2, 3}, i \in {0, 1}}
Pairs == {PSeq(<<x, y>>) : x \in {P("ws"), P("wssplit"), Punct(3), Digits(1), Meta(<<meta>>, 1), Delim(comma)},
                           y \in {Punct(1), Digits(0), BL(1), Meta(<<meta>>, 1), Meta(<<meta>>, 2), P("script"), P("bert")}} \cup {PSeq(<<>>)}
Exts == {[a |-> "ext", p |-> p] : p \in {Rn(a), StrPat(<<a, sp>>)}}

Texts2 == SeqsUpTo({a, eac, sp, comma, one, nbsp, nl, han, kana, meta}, 2) \cup SeqsUpTo({a, sp, comma, one}, IF Big THEN 5 ELSE 3)
          \cup {<<sp, sp, a, sp, sp>>, <<a, nl, nl, eac>>, <<kana, han, sp, a, 12540, 888>>, <<888, a>>, <<a, 769, 95, 8255, 8205, one>>, <<36, 43, 8364, 8220>>,
                <<one, 178, 189, 8551, 1632>>, <<a, -255, sp>>, <<46, a, 46>>, <<eac, a, sp, eac, a, eac>>, <<8195, a, 8232, 133, a>>}
TextsE == SeqsUpTo({a, sp, eac}, 3) \cup {<<a, sp, one, comma, a>>}
\* every character with every rule that looks at characters
TextsC == {<<a, c, one, c>> : c \in Known}
Classes == {[a |-> "pre", p |-> p] : p \in {P("ws"), P("wssplit"), P("bert"), P("script"), Punct(1), Digits(1), Meta(<<meta>>, 0)}}
Encs == {[a |-> "enc", type |-> 1, word |-> w, chars |-> c, trim |-> 0, prefix |-> 0] : w \in {-1, 3}, c \in {0, 1}}
Toks == {[a |-> "tok", w |-> w, drop |-> d] : w \in {1, 2}, d \in {0, a}}
\* byte level
Texts3 == SeqsUpTo({sp, a, eac, nl, 39, 115, one, comma}, IF Big THEN 4 ELSE 2) \cup SeqsUpTo({sp, a, nl}, IF Big THEN 6 ELSE 4)
          \cup {<<39, 108, 108, a>>, <<a, 39, 114, 101, 39, 118, 101>>, <<39, 109, 39, 100, 39, 116>>, <<39, 115, 115>>, <<sp, 39, 115>>, <<sp, sp, 39, 115>>, <<a, 39, 83>>, <<39, 114, a>>,
                <<a, nbsp, a>>, <<a, sp, nbsp, a>>, <<sp, sp, sp, han, sp, sp>>, <<8195, 8195, one, 189>>, <<288, 289, a>>, <<128512, 8205, 128512>>}
          \cup {<<c>> : c \in Known} \cup {<<a, -255>>}

Pres == {[a |-> "pre", p |-> p] : p \in Simple \cup Pairs}
StepsAt(d) ==
  IF Prop = "S03" THEN
    CASE d = 0 -> {[a |-> "pre", p |-> BL(x)] : x \in {0, 1}}
      [] d = 1 -> LET L == Len(Flatten([i \in 1..Len(pt.sp) |-> Text(pt.sp[i].n)])) IN
                  IF L > 6 THEN {[a |-> "dec", cuts |-> <<1, 3>>], [a |-> "dec", cuts |-> <<L \div 2>>], [a |-> "tok", w |-> 3, drop |-> 0]}
                  ELSE {[a |-> "dec", cuts |-> <<i, j>>] : i \in 0..L, j \in 0..L} \cup {[a |-> "tok", w |-> w, drop |-> 0] : w \in {1, 2, 9}}
      [] d = 2 -> IF hist.steps[2].a = "tok" THEN {[a |-> "enc", type |-> 0, word |-> -1, chars |-> c, trim |-> 1, prefix |-> hist.steps[1].p.prefix] : c \in {0, 1}} ELSE {}
      [] OTHER -> {}
  ELSE
    CASE d = 0 -> IF hist.text \in TextsC THEN Classes ELSE Pres \cup (IF hist.text \in TextsE THEN Exts ELSE {})
      [] d = 1 -> IF hist.steps[1].a = "ext" THEN Pres \cup {[a |-> "norm", p |-> [k |-> "prepend", s |-> <<eac>>]]}
                  ELSE IF hist.text \in TextsE /\ hist.steps[1].p \in {P("ws"), Meta(<<meta>>, 2), BL(1), P("bert")} THEN Toks ELSE {}
      [] d = 2 -> IF hist.steps[2].a = "tok" THEN Encs ELSE {}
      [] OTHER -> {}
Sorted(s) == IF s.a = "dec" THEN \A i \in 1..(Len(s.cuts) - 1) : s.cuts[i] <= s.cuts[i + 1] ELSE TRUE

Init == \E t \in (IF Prop = "S02" THEN Texts2 \cup TextsE \cup TextsC ELSE Texts3) :
  /\ pt = Start(From(t)) /\ prev = pt /\ k = 0 /\ hist = [text |-> t, steps |-> <<>>, obs |-> <<>>]
Next == \E s \in StepsAt(k) :
  /\ Sorted(s)
  /\ LET r == PreStep(pt, s) IN
     /\ pt' = r.pt /\ prev' = pt /\ k' = k + 1
     /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [ret |-> r.ret])]
Spec == Init /\ [][Next]_vars
Emit == k > 0 /\ StepsAt(k) = {} => PrintT("CASE" \o ToJson([op |-> "pretok", text |-> hist.text, norm |-> <<>>, steps |-> hist.steps, exp |-> [obs |-> hist.obs]]))

--------------------------------------------------- \* property predicates
Last == hist.steps[k]
Ret == hist.obs[k].ret
All(s, C(_)) == \A i \in 1..Len(s) : C(s[i])
Some(s, C(_)) == \E i \in 1..Len(s) : C(s[i])
Without(s, C(_)) == SelectSeq(s, LAMBDA c : ~C(Rune(c)))
PieceTexts == Flatten([i \in 1..Len(Ret) |-> Ret[i].v])
Verbatim(p) == p.k \notin {"meta", "bl", "seq"}
Discards(p, t) ==
  CASE p.k \in {"ws", "wssplit", "bert"} -> Without(t, IsSpace)
    [] p.k = "delim" -> Without(t, LAMBDA c : c = p.c)
    [] p.k = "script" -> Drop(t, LET RECURSIVE L(_) L(s) == IF s # <<>> /\ Head(s) = 32 THEN 1 + L(Tail(s)) ELSE 0 IN L(t))
    [] p.k = "punct" /\ p.b = 0 -> Without(t, BertPunct)
    [] p.k = "split" /\ p.b = 0 -> PieceTexts
    [] OTHER -> t
PropS02 ==
  /\ SelectSeq(prev.sp, LAMBDA x : x.tk = 1) = SelectSeq(pt.sp, LAMBDA x : x.tk = 1 /\ (prev.sp = <<>> \/ x \in Range(prev.sp))) \/ (k > 0 /\ Last.a \in {"ext", "tok"})
  /\ k > 0 /\ Last.a \in {"pre", "ext"} =>
     /\ \A i \in 1..Len(Ret) : (Ret[i].v # <<>> \/ hist.text = <<>>) /\ Ret[i].o[1] <= Ret[i].o[2] /\ Ret[i].o[2] <= Bytes(hist.text)
     \* a character put before the text has the place of the first one
     /\ \A i \in 1..(Len(Ret) - 1) : Ret[i].o[2] <= Ret[i + 1].o[1] \/ (Ret[i].o[1] <= Ret[i + 1].o[1] /\ Ret[i].o[2] <= Ret[i + 1].o[2] /\ Last.a = "pre" /\ ~Verbatim(Last.p))
  /\ k = 1 /\ Last.a = "pre" =>
     LET p == Last.p t == hist.text IN
     /\ Verbatim(p) => /\ PieceTexts = Discards(p, t)
                       /\ \A i \in 1..Len(Ret) : SubSeq(t, Ret[i].oc[1] + 1, Ret[i].oc[2]) = Ret[i].v
     /\ p.k = "wssplit" => \A i \in 1..(Len(Ret) - 1) : Ret[i].o[2] < Ret[i + 1].o[1]
     /\ p.k = "ws" => \A i \in 1..Len(Ret) : All(Ret[i].v, LAMBDA c : IsWord(Rune(c))) \/ All(Ret[i].v, LAMBDA c : ~IsWord(Rune(c)))
     /\ p.k = "digits" => \A i \in 1..Len(Ret) : IF p.ind = 1 THEN Some(Ret[i].v, LAMBDA c : IsNum(Rune(c))) => Len(Ret[i].v) = 1
                                                ELSE All(Ret[i].v, LAMBDA c : IsNum(Rune(c))) \/ All(Ret[i].v, LAMBDA c : ~IsNum(Rune(c)))
     /\ p.k = "punct" /\ p.b = 1 => \A i \in 1..Len(Ret) : Some(Ret[i].v, LAMBDA c : BertPunct(c)) => Len(Ret[i].v) = 1
     /\ p.k = "bert" => \A i \in 1..Len(Ret) : Some(Ret[i].v, LAMBDA c : BertPunct(c)) => Len(Ret[i].v) = 1
     /\ p.k = "meta" /\ Len(p.s) = 1 => \A i \in 1..Len(Ret) : \A j \in 2..Len(Ret[i].v) : Ret[i].v[j] # p.s[1]
     /\ p.k = "script" => \A i \in 1..(Len(Ret) - 1) : Script(Rune(Ret[i].v[1])) # Script(Rune(Ret[i + 1].v[1]))
  /\ k > 0 /\ Last.a = "enc" => Ret # <<>> /\ LET e == Ret[1] IN \A i \in 1..Len(e.ids) : e.off[i][1] <= e.off[i][2] /\ e.off[i][2] <= Bytes(hist.text)
WithSpace(t) == IF hist.steps[1].p.prefix = 1 /\ t # <<>> /\ Head(t) # 32 THEN <<32>> \o t ELSE t
Clean3 == [i \in 1..Len(hist.text) |-> Rune(hist.text[i])]
PropS03 ==
  /\ Cardinality(Range([b \in 1..256 |-> ByteChar(b - 1)])) = 256 /\ \A b \in 0..255 : CharByte(ByteChar(b)) = b
  /\ k > 0 /\ Last.a = "pre" => \A i \in 1..Len(Ret) : All(Ret[i].v, IsByteChar)
  /\ k > 0 /\ Last.a = "dec" => Ret = BytesOf(WithSpace(Clean3))
  /\ k > 0 /\ Last.a = "enc" =>
       LET u == EncOf(pt, 0, -1, Last.chars) e == Ret[1] IN
       /\ [e EXCEPT !.off = <<>>] = [u EXCEPT !.off = <<>>]
       /\ \A i \in 1..Len(e.off) : u.off[i][1] <= e.off[i][1] /\ e.off[i][1] <= e.off[i][2] /\ e.off[i][2] <= u.off[i][2]
                                   /\ (288 \notin Range(e.tok[i]) => e.off[i] = u.off[i])
Holds == IF Prop = "S02" THEN PropS02 ELSE PropS03
============================================================================
