----------------------------- MODULE Template -----------------------------
(* Templates of special tokens and sequences written as text, and the        *)
(* builder that puts a template processor together (processor/template.go).  *)
(* A text is a sequence of code points. State of the builder: the template   *)
(* for one sequence, the one for two, the special tokens.                    *)
EXTENDS Encoding

Dollar == 36  Colon == 58  Blank == 32
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, cur) == IF s = <<>> THEN <<cur>>
                      ELSE IF Head(s) = c THEN <<cur>> \o SplitAt(Tail(s), c, <<>>)
                      ELSE SplitAt(Tail(s), c, Append(cur, Head(s)))
IsNumber(s) == s # <<>> /\ \A i \in 1..Len(s) : 48 <= s[i] /\ s[i] <= 57
RECURSIVE NumberOf(_)
NumberOf(s) == IF s = <<>> THEN 0 ELSE 10 * NumberOf(SubSeq(s, 1, Len(s) - 1)) + s[Len(s)] - 48

\* a piece: k "seq" (s: which sequence), "sp" (id: name of a special token), "bad"
SeqPiece(s, ty) == [k |-> "seq", s |-> s, ty |-> ty, id |-> <<>>]
SpPiece(id, ty) == [k |-> "sp", s |-> 0, ty |-> ty, id |-> id]
BadPiece == [k |-> "bad", s |-> 0, ty |-> 0, id |-> <<>>]
NamedPiece(x) ==
  IF x = <<>> \/ Head(x) # Dollar THEN SpPiece(x, 0)
  ELSE LET r == Tail(x) IN
       IF r \in {<<>>, <<65>>, <<97>>} THEN SeqPiece(0, 0)
       ELSE IF r \in {<<66>>, <<98>>} THEN SeqPiece(1, 0)
       ELSE IF IsNumber(r) THEN SeqPiece(0, NumberOf(r))
       ELSE BadPiece
PieceOf(x) ==
  LET p == SplitAt(x, Colon, <<>>)
      n == NamedPiece(p[1]) IN
  IF Len(p) = 1 THEN n
  ELSE IF Len(p) = 2 /\ IsNumber(p[2]) /\ n.k # "bad" THEN [n EXCEPT !.ty = NumberOf(p[2])]
  ELSE BadPiece
\* a template is given as one text or as a list of them: [one |-> text] or [many |-> texts]
Written(w) == IF "one" \in DOMAIN w THEN SplitAt(w.one, Blank, <<>>) ELSE w.many
PiecesOf(w) == LET l == Written(w) IN [i \in 1..Len(l) |-> PieceOf(l[i])]
Fine(ps) == \A i \in 1..Len(ps) : ps[i].k # "bad"
\* how a piece is written
RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
PieceText(p) == (IF p.k = "seq" THEN <<Dollar, 65 + p.s>> ELSE p.id) \o <<Colon>> \o Digits(p.ty)

---------------------------------------------------------------- \* builder
\* at first: the one sequence alone; toks: <<[id, tk]>>
Fresh == [single |-> <<SeqPiece(0, 0)>>, pair |-> <<SeqPiece(0, 1)>>, toks |-> <<>>]
Defined(b, id) == \E i \in 1..Len(b.toks) : b.toks[i].tk = id
TokOf(b, id) == b.toks[MaxOf({i \in 1..Len(b.toks) : b.toks[i].tk = id})]
CountAdded(b, ps) == Len(SelectSeq(ps, LAMBDA p : p.k = "sp" /\ Defined(b, p.id)))
Uses(ps, s) == \E i \in 1..Len(ps) : ps[i].k = "seq" /\ ps[i].s = s
Invalid(b) == \/ ~Uses(b.pair, 0) \/ ~Uses(b.pair, 1)
              \/ \E i \in 1..Len(b.single) : b.single[i].k = "sp" /\ ~Defined(b, b.single[i].id)
              \/ \E i \in 1..Len(b.pair) : b.pair[i].k = "sp" /\ ~Defined(b, b.pair[i].id)
\* as post-processing takes it
Resolved(b, ps) == [i \in 1..Len(ps) |-> IF ps[i].k = "seq" THEN [k |-> "seq", s |-> ps[i].s, ty |-> ps[i].ty]
                                         ELSE [k |-> "sp", ty |-> ps[i].ty, toks |-> <<TokOf(b, ps[i].id)>>]]
\* the templates that can be applied: what they name is there, a sequence once
Applies(b, ps, hasB) ==
  /\ \A i \in 1..Len(ps) : ps[i].k = "sp" => Defined(b, ps[i].id)
  /\ hasB \/ ~Uses(ps, 1)
  /\ \A i, j \in 1..Len(ps) : i < j /\ ps[i].k = "seq" /\ ps[j].k = "seq" => ps[i].s # ps[j].s

Inputs == << Enc(<<[id |-> 12, ty |-> 0, tk |-> <<104>>, o1 |-> 0, o2 |-> 1, w |-> 0, sp |-> 0, at |-> 1],
                   [id |-> 14, ty |-> 0, tk |-> <<116>>, o1 |-> 2, o2 |-> 3, w |-> 1, sp |-> 0, at |-> 1]>>, <<>>, <<>>),
             Enc(<<[id |-> 15, ty |-> 0, tk |-> <<112>>, o1 |-> 0, o2 |-> 4, w |-> 0, sp |-> 0, at |-> 1]>>, <<>>, <<>>) >>
\* a step gives [b |-> new builder, ret |-> what is seen]
Skipped == <<>>
Took(b, s) ==
  CASE s.a = "piece" -> [b |-> b, ret |-> PieceOf(s.s)]
    [] s.a = "template" -> [b |-> b, ret |-> IF Fine(PiecesOf(s.w)) THEN PiecesOf(s.w) ELSE <<BadPiece>>]
    [] s.a = "single" -> IF Fine(PiecesOf(s.w)) THEN [b |-> [b EXCEPT !.single = PiecesOf(s.w)], ret |-> <<0>>] ELSE [b |-> b, ret |-> <<1>>]
    [] s.a = "pair" -> IF Fine(PiecesOf(s.w)) THEN [b |-> [b EXCEPT !.pair = PiecesOf(s.w)], ret |-> <<0>>] ELSE [b |-> b, ret |-> <<1>>]
    [] s.a = "tokens" -> [b |-> [b EXCEPT !.toks = s.toks], ret |-> <<0>>]
    [] s.a = "added" -> [b |-> b, ret |-> <<CountAdded(b, b.single), CountAdded(b, b.pair)>>]
    [] s.a = "validate" -> [b |-> b, ret |-> <<B2I(Invalid(b))>>]
    [] s.a = "find" ->            \* the special tokens by name and by order
         [b |-> b, ret |-> [named |-> IF Defined(b, s.s) THEN <<TokOf(b, s.s)>> ELSE <<>>,
                            nth |-> IF s.n >= 0 /\ s.n < Len(b.toks) THEN <<TokOf(b, b.toks[s.n + 1].tk)>> ELSE <<>>]]
    [] s.a = "process" ->
         LET hasB == s.two = 1
             ps == IF hasB THEN b.pair ELSE b.single IN
         [b |-> b, ret |-> IF ~Applies(b, ps, hasB) THEN Skipped
                           ELSE <<Process([k |-> "tpl", single |-> Resolved(b, ps), pair |-> Resolved(b, ps)], Inputs[1], IF hasB THEN Inputs[2] ELSE Empty, hasB, s.add)>>]
============================================================================
