----------------------------- MODULE AddedVocab -----------------------------
(* The vocabulary added on top of a model: ids of added tokens, how they are *)
(* found in a text before anything else looks at it, and decoding.           *)
EXTENDS PreTok

\* the model: its vocabulary as a sequence of [t, id], ids may have gaps
NewVocab(model, w) == [model |-> model, w |-> w, added |-> <<>>, spec |-> <<>>, ord |-> <<>>, norm |-> <<>>, pre |-> <<>>]

-------------------------------------------------------------- \* ids
All(av) == av.added \o av.model
IdOf(av, t) == LET s == SelectSeq(All(av), LAMBDA x : x.t = t) IN IF s = <<>> THEN <<>> ELSE <<s[1].id>>
TokenOf(av, id) == LET s == SelectSeq(All(av), LAMBDA x : x.id = id) IN IF s = <<>> THEN <<>> ELSE <<s[1].t>>
RECURSIVE FirstFree(_, _)
FirstFree(av, id) == IF TokenOf(av, id) = <<>> THEN id ELSE FirstFree(av, id + 1)
IsSpecial(av, t) == \E i \in 1..Len(av.spec) : av.spec[i].c = t
RECURSIVE AddAll(_, _)
AddAll(av, toks) ==
  IF toks = <<>> THEN av
  ELSE LET x == Head(toks) IN
       IF x.c = <<>> \/ IdOf(av, x.c) # <<>> THEN AddAll(av, Tail(toks))
       ELSE AddAll([av EXCEPT !.added = Append(@, [t |-> x.c, id |-> FirstFree(av, Len(av.model) + Len(av.added))]),
                              !.ord = IF IsSpecial(av, x.c) THEN @ ELSE Append(@, x)], Tail(toks))
RECURSIVE MarkSpecial(_, _)
MarkSpecial(av, toks) ==
  IF toks = <<>> THEN av
  ELSE MarkSpecial(IF Head(toks).c = <<>> \/ IsSpecial(av, Head(toks).c) THEN av ELSE [av EXCEPT !.spec = Append(@, Head(toks))], Tail(toks))
Add(av, toks, special) == AddAll(IF special = 1 THEN MarkSpecial(av, toks) ELSE av, toks)
RECURSIVE ById(_)
ById(s) == IF s = <<>> THEN <<>>
           ELSE LET m == CHOOSE i \in 1..Len(s) : \A j \in 1..Len(s) : s[i].id <= s[j].id
                IN <<s[m]>> \o ById(SubSeq(s, 1, m - 1) \o SubSeq(s, m + 1, Len(s)))
Listing(av) == [all |-> ById(All(av)), model |-> ById(av.model), sizes |-> <<Len(av.model), Len(av.model) + Len(av.added)>>,
                special |-> [i \in 1..Len(av.spec) |-> av.spec[i].c]]

---------------------------------------------------------- \* extraction
\* what is looked for: the content, normalized if the token asks for it
Looked(av, x) == IF x.nz = 1 /\ av.norm # <<>> THEN Text(Normalize(av.norm[1], From(x.c))) ELSE x.c
\* the tokens of one stage, in the order they were registered, special ones first
Stage(av, nz) == LET s == SelectSeq(av.spec \o av.ord, LAMBDA x : x.nz = nz)
                     r == [i \in 1..Len(s) |-> [c |-> Looked(av, s[i]), ls |-> s[i].ls, rs |-> s[i].rs, sw |-> s[i].sw, id |-> IdOf(av, s[i].c)]]
                 IN SelectSeq(r, LAMBDA x : x.c # <<>>)
RECURSIVE Spaces(_, _)
Spaces(s, i) == IF i < Len(s) /\ IsSpace(Rune(s[i + 1])) THEN 1 + Spaces(s, i + 1) ELSE 0
Here(s, i, c) == i + Len(c) <= Len(s) /\ SubSeq(s, i + 1, i + Len(c)) = c
WordAt(s, i) == i >= 0 /\ i < Len(s) /\ IsWord(Rune(s[i + 1]))
Cuts(s, i) == WordAt(s, i - 1) /\ WordAt(s, i)
\* the match of x starting at position i, if any
MatchAt(s, i, x) ==
  LET ks == {k \in 0..(IF x.ls = 1 THEN Spaces(s, i) ELSE 0) : Here(s, i + k, x.c)} IN
  IF ks = {} THEN <<>>
  ELSE LET k == CHOOSE k \in ks : \A j \in ks : j <= k
           e == i + k + Len(x.c)
       IN IF x.sw = 1 /\ (Cuts(s, i + k) \/ Cuts(s, e)) THEN <<>>
          ELSE <<[id |-> x.id[1], s |-> i, e |-> e + (IF x.rs = 1 THEN Spaces(s, e) ELSE 0)]>>
\* at each place the token registered first that matches there
RECURSIVE FirstAt(_, _, _)
FirstAt(s, i, xs) == IF xs = <<>> THEN <<>> ELSE LET m == MatchAt(s, i, Head(xs)) IN IF m # <<>> THEN m ELSE FirstAt(s, i, Tail(xs))
RECURSIVE Found(_, _, _)
Found(s, i, xs) == IF i >= Len(s) THEN <<>>
                   ELSE LET m == FirstAt(s, i, xs) IN IF m = <<>> THEN Found(s, i + 1, xs) ELSE m \o Found(s, m[1].e, xs)
Extract(n, xs) ==
  LET t == Text(n)
      f == Found(t, 0, xs)
      RECURSIVE Go(_, _)
      Go(i, at) ==
        IF i > Len(f) THEN (IF at < Len(t) THEN <<Split(Piece(n, at, Len(t)))>> ELSE <<>>)
        ELSE (IF at < f[i].s THEN <<Split(Piece(n, at, f[i].s))>> ELSE <<>>)
             \o << LET p == Piece(n, f[i].s, f[i].e) IN [n |-> p, tk |-> 1, toks |-> <<Token(f[i].id, Text(p), <<0, Bytes(Text(p))>>)>>] >>
             \o Go(i + 1, f[i].e)
  IN Go(1, 0)
\* stage 1 looks at the text as it is, stage 2 normalizes first
StageOn(av, nz, n) == Extract(IF nz = 0 \/ av.norm = <<>> THEN n ELSE Normalize(av.norm[1], n), Stage(av, nz))
RECURSIVE Each(_, _, _)
Each(av, nz, sp) == IF sp = <<>> THEN <<>> ELSE (IF Head(sp).tk = 1 THEN <<Head(sp)>> ELSE StageOn(av, nz, Head(sp).n)) \o Each(av, nz, Tail(sp))
ExtractAndNormalize(av, text) ==
  LET n0 == From(text) IN [orig |-> n0.orig, sp |-> Each(av, 1, Each(av, 0, <<Split(n0)>>))]
Encoded(av, text, chars) ==
  LET x == ExtractAndNormalize(av, text)
      p == IF av.pre = <<>> THEN x ELSE [x EXCEPT !.sp = PreTokenize(av.pre[1], @)]
  IN EncOf([p EXCEPT !.sp = TokAll(av.w, 0, @)], 0, -1, chars)

------------------------------------------------------------ \* decoding
RECURSIVE JoinSp(_)
JoinSp(s) == IF s = <<>> THEN <<>> ELSE IF Len(s) = 1 THEN s[1] ELSE s[1] \o <<32>> \o JoinSp(Tail(s))
Kept(av, ids, skip) == LET s == Flatten([i \in 1..Len(ids) |-> TokenOf(av, ids[i])])
                       IN IF skip = 1 THEN SelectSeq(s, LAMBDA t : ~IsSpecial(av, t)) ELSE s
Decoded(av, ids, skip) == JoinSp(Kept(av, ids, skip))

---------------------------------------------------------------- \* steps
AvStep(av, s) ==
  CASE s.a = "add" -> LET x == Add(av, s.toks, s.special) IN [av |-> x, ret |-> Len(x.added) - Len(av.added)]
    [] s.a = "norm" -> [av |-> [av EXCEPT !.norm = s.p], ret |-> 0]
    [] s.a = "pre" -> [av |-> [av EXCEPT !.pre = s.p], ret |-> 0]
    [] s.a = "list" -> [av |-> av, ret |-> Listing(av)]
    [] s.a = "look" -> [av |-> av, ret |-> [ids |-> [i \in 1..Len(s.toks) |-> IdOf(av, s.toks[i])], toks |-> [i \in 1..Len(s.ids) |-> TokenOf(av, s.ids[i])],
                                            special |-> [i \in 1..Len(s.toks) |-> IF IsSpecial(av, s.toks[i]) THEN 1 ELSE 0]]]
    [] s.a = "ext" -> [av |-> av, ret |-> ViewSplits(ExtractAndNormalize(av, s.text))]
    [] s.a = "enc" -> [av |-> av, ret |-> Encoded(av, s.text, s.chars)]
    [] s.a = "dec" -> [av |-> av, ret |-> Decoded(av, s.ids, s.skip)]
============================================================================
