----------------------------- MODULE Normalized -----------------------------
(* The normalized string machine: a text under modification, always aligned  *)
(* with its original. State: the original text, the normalized characters    *)
(* each with the span [a, b) of original bytes it stands for, and where the  *)
(* original lies in the whole text (sh, in bytes).                           *)
EXTENDS Chars

RECURSIVE Aligned(_, _)
Aligned(s, p) == IF s = <<>> THEN <<>>
                 ELSE <<[c |-> Head(s), a |-> p, b |-> p + Width(Head(s))]>> \o Aligned(Tail(s), p + Width(Head(s)))
From(s) == [orig |-> s, norm |-> Aligned(s, 0), sh |-> 0]

Text(n) == TLCEval([i \in 1..Len(n.norm) |-> n.norm[i].c])
\* per byte of the normalized text
RECURSIVE ByteAligns(_)
ByteAligns(m) == IF m = <<>> THEN <<>> ELSE Rep(<<Head(m).a, Head(m).b>>, Width(Head(m).c)) \o ByteAligns(Tail(m))
\* per byte of the original: the normalized bytes standing for it, or the empty
\* span where they would be
OrigAligns(n) ==
  LET al == ByteAligns(n.norm)
      L == Len(al)
      st(p) == Cardinality({i \in 1..L : al[i][2] <= p})
      en(p) == LET S == {i \in 1..L : al[i][1] <= p} IN Max2(st(p), Cardinality(S))
  IN TLCEval([p \in 1..Bytes(n.orig) |-> <<st(p - 1), en(p - 1)>>])
View(n) == [orig |-> n.orig, norm |-> Text(n), al |-> ByteAligns(n.norm), ao |-> OrigAligns(n), sh |-> n.sh]

---------------------------------------------------------------- \* ranges
\* the original byte span of normalized bytes [s, e), and back; <<>> when there is none
Conv(n, on, s, e0) ==
  LET lim == IF on = 0 THEN Bytes(n.orig) ELSE Bytes(Text(n))
      e == Min2(e0, lim)
      al == IF on = 0 THEN OrigAligns(n) ELSE ByteAligns(n.norm)
  IN IF s = e THEN <<s, e>>
     ELSE IF s < 0 \/ s > e THEN <<>>
     ELSE <<al[s + 1][1], al[e][2]>>

\* a slice given by normalized characters i..j-1 (0-based), i < j
SliceNorm(n, i, j) ==
  LET m == SubSeq(n.norm, i + 1, j)
      a == m[1].a
      b == m[Len(m)].b
  IN [orig |-> SubSeq(n.orig, CharAt(n.orig, a) + 1, CharAt(n.orig, b)),
      norm |-> TLCEval([k \in 1..Len(m) |-> [m[k] EXCEPT !.a = @ - a, !.b = @ - a]]),
      sh |-> n.sh + a]
\* a slice given by original characters i..j-1
SliceOrig(n, i, j) ==
  LET a == PosOf(n.orig, i)
      b == PosOf(n.orig, j)
      m == SelectSeq(n.norm, LAMBDA x : x.a >= a /\ x.b <= b /\ x.a < x.b)
  IN [orig |-> SubSeq(n.orig, i + 1, j), norm |-> TLCEval([k \in 1..Len(m) |-> [m[k] EXCEPT !.a = @ - a, !.b = @ - a]]), sh |-> n.sh + a]

------------------------------------------------------------ \* operations
WithNorm(n, m) == [n EXCEPT !.norm = TLCEval(m)]
Chars2(s, x) == [k \in 1..Len(s) |-> [c |-> s[k], a |-> x.a, b |-> x.b]]
Edge == [c |-> 0, a |-> 0, b |-> 0]

\* the general transformation of characters i..j-1 by a list of <<char, change>>
RECURSIVE Changed(_, _, _, _)
Changed(m, pos, cm, out) ==  \* pos: characters of m consumed so far
  IF cm = <<>> THEN out
  ELSE LET c == Head(cm)[1]
           ch == Head(cm)[2]
           x == IF ch > 0 THEN (IF pos = 0 THEN Edge ELSE m[pos]) ELSE m[pos + 1]
       IN Changed(m, IF ch > 0 THEN pos ELSE pos + 1 - ch, Tail(cm), Append(out, [c |-> c, a |-> x.a, b |-> x.b]))
Consumed(cm) == SumSeq([k \in 1..Len(cm) |-> IF cm[k][2] > 0 THEN 0 ELSE 1 - cm[k][2]])
Transform(n, i, j, cm, init) ==
  WithNorm(n, SubSeq(n.norm, 1, i) \o Changed(n.norm, i + init, cm, <<>>) \o SubSeq(n.norm, j + 1, Len(n.norm)))

MapChars(n, f(_)) == WithNorm(n, [k \in 1..Len(n.norm) |-> [n.norm[k] EXCEPT !.c = f(@)]])
ToLower(n) == MapChars(n, Lower)
ToUpper(n) == MapChars(n, Upper)
Keep(n, P(_)) == WithNorm(n, [k \in 1..Len(SelectSeq(n.norm, LAMBDA x : P(x.c))) |->
                   LET y == SelectSeq(n.norm, LAMBDA x : P(x.c))[k] IN [y EXCEPT !.c = Rune(@)]])
\* whole-text transformations rewrite invalid bytes as the replacement character
Clean(n) == MapChars(n, Rune)
Prepend(n, s) == IF n.norm = <<>> \/ s = <<>> THEN n
                 ELSE WithNorm(n, Chars2(s, n.norm[1]) \o <<[n.norm[1] EXCEPT !.c = Rune(@)]>> \o Tail(n.norm))
AppendText(n, s) == IF n.norm = <<>> THEN n
                    ELSE LET l == Len(n.norm) IN
                         WithNorm(n, SubSeq(n.norm, 1, l - 1) \o <<[n.norm[l] EXCEPT !.c = Rune(@)]>> \o Chars2(s, n.norm[l]))
ClearText(n) == WithNorm(n, <<>>)
RECURSIVE LeadSpaces(_)
LeadSpaces(s) == IF s # <<>> /\ IsSpace(Head(s)) THEN 1 + LeadSpaces(Tail(s)) ELSE 0
Reverse(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
StripText(n, l, r) ==
  LET t == Text(n)
      x == IF l THEN LeadSpaces(t) ELSE 0
      y == IF r THEN LeadSpaces(Reverse(t)) ELSE 0
  IN IF x = 0 /\ y = 0 THEN n ELSE WithNorm(Clean(n), SubSeq(Clean(n).norm, x + 1, Len(t) - y))
\* normal forms: within a segment, new characters stand for the old ones at the
\* same place; what is added stands for the last old one
RECURSIVE FormSegs(_, _, _)
FormSegs(f, m, segs) ==
  IF segs = <<>> THEN <<>>
  ELSE LET k == Head(segs)
           old == SubSeq(m, 1, k)
           new == Form(f, [i \in 1..k |-> Rune(old[i].c)])
       IN [i \in 1..Len(new) |-> [old[Min2(i, k)] EXCEPT !.c = new[i]]] \o FormSegs(f, SubSeq(m, k + 1, Len(m)), Tail(segs))
NormalForm(n, f) == WithNorm(n, FormSegs(f, n.norm, Segments(f, Text(n), 0)))

--------------------------------------------------------------- \* patterns
(* A pattern is a record k ...; a regular expression is a record n (node):   *)
(*  set cs neg | cls c | seq l r | alt l r | star l | plus l | opt l        *)
(* with the leftmost-first meaning of Go and Perl.                           *)
InClass(cls, c) ==
  CASE cls = "space" -> IsSpace(c) [] cls = "bspace" -> BertSpace(c) [] cls = "bpunct" -> BertPunct(c) [] cls = "punct" -> IsPunct(c)
    [] cls = "num" -> IsNum(c) [] cls = "digit" -> IsDigit(c) [] cls = "let" -> IsLetter(c) [] cls = "mn" -> IsMn(c) [] cls = "chinese" -> Chinese(c)
    [] cls = "lower" -> Lower(c) = c /\ Upper(c) # c
    [] cls = "word" -> InRange(c, 48, 57) \/ InRange(c, 65, 90) \/ c = 95 \/ InRange(c, 97, 122)
    [] cls = "aspace" -> c \in {9, 10, 12, 13, 32}
    [] cls = "uword" -> IsWord(c) [] cls = "uwordspace" -> IsWord(c) \/ IsSpace(c)
    [] cls = "any" -> c # 10
    [] cls = "all" -> TRUE
    [] cls = "high" -> c > 127
    [] cls = "sym" -> ~IsLetter(c) /\ ~IsSpace(c)
\* the ends of all matches of node r at position i of s, best first
RECURSIVE Ends(_, _, _)
RECURSIVE EndsFrom(_, _, _)
RECURSIVE StarEnds(_, _, _)
EndsFrom(r, s, is) == IF is = <<>> THEN <<>> ELSE Ends(r, s, Head(is)) \o EndsFrom(r, s, Tail(is))
StarEnds(r, s, i) ==
  LET es == SelectSeq(Ends(r, s, i), LAMBDA e : e > i)
      RECURSIVE Each(_)
      Each(l) == IF l = <<>> THEN <<>> ELSE StarEnds(r, s, Head(l)) \o Each(Tail(l))
  IN Each(es) \o <<i>>
Ends(r, s, i) ==
  CASE r.n = "set" -> IF i < Len(s) /\ ((Rune(s[i + 1]) \in Range(r.cs)) = (r.neg = 0)) THEN <<i + 1>> ELSE <<>>
    [] r.n = "cls" -> IF i < Len(s) /\ (InClass(r.c, Rune(s[i + 1])) = (r.neg = 0)) THEN <<i + 1>> ELSE <<>>
    [] r.n = "seq" -> EndsFrom(r.r, s, Ends(r.l, s, i))
    [] r.n = "alt" -> Ends(r.l, s, i) \o Ends(r.r, s, i)
    [] r.n = "star" -> StarEnds(r.l, s, i)
    [] r.n = "plus" -> LET es == Ends(r.l, s, i)
                           RECURSIVE Each(_)
                           Each(l) == IF l = <<>> THEN <<>> ELSE StarEnds(r.l, s, Head(l)) \o Each(Tail(l))
                       IN Each(es)
    [] r.n = "opt" -> Ends(r.l, s, i) \o <<i>>
    [] r.n = "lit" -> IF IsPrefixOf(r.s, Drop(s, i)) THEN <<i + Len(r.s)>> ELSE <<>>
    [] r.n = "end" -> IF i = Len(s) THEN <<i>> ELSE <<>>
    [] r.n = "beg" -> IF i = 0 THEN <<i>> ELSE <<>>
\* leftmost non-overlapping non-empty occurrences from position i: pairs of character positions
RECURSIVE Occurrences(_, _, _)
Occurrences(r, s, i) ==
  IF i > Len(s) THEN <<>>
  ELSE LET es == Ends(r, s, i) IN
       IF es = <<>> \/ Head(es) = i THEN Occurrences(r, s, i + 1)
       ELSE << <<i, Head(es)>> >> \o Occurrences(r, s, Head(es))
\* tiles: triples (from, to, match) in characters
RECURSIVE Tiles(_, _, _)
Tiles(occ, i, len) ==
  IF occ = <<>> THEN (IF i < len THEN << <<i, len, 0>> >> ELSE <<>>)
  ELSE LET o == Head(occ) IN
       (IF i < o[1] THEN << <<i, o[1], 0>> >> ELSE <<>>) \o << <<o[1], o[2], 1>> >> \o Tiles(Tail(occ), o[2], len)
NodeOf(p) ==
  CASE p.k = "rune" -> [n |-> "set", cs |-> <<p.c>>, neg |-> 0]
    [] p.k = "str" -> [n |-> "lit", s |-> p.s]
    [] p.k = "fn" -> [n |-> "cls", c |-> p.c, neg |-> 0]
    [] p.k = "re" -> p.r
RECURSIVE Matches(_, _)
Matches(p, s) ==
  IF p.k = "inv" THEN LET m == Matches(p.p, s) IN [i \in 1..Len(m) |-> <<m[i][1], m[i][2], 1 - m[i][3]>>]
  ELSE IF s = <<>> \/ (p.k = "str" /\ p.s = <<>>) THEN << <<0, Len(s), 0>> >>
  ELSE Tiles(Occurrences(NodeOf(p), s, 0), 0, Len(s))

\* splitting: 0 removed, 1 isolated, 2 merged with previous, 3 merged with next, 4 contiguous
RECURSIVE MergePrev(_, _, _)
MergePrev(ms, acc, prev) ==
  IF ms = <<>> THEN acc
  ELSE LET m == Head(ms) IN
       IF m[3] = 1 /\ ~prev /\ acc # <<>> THEN MergePrev(Tail(ms), [acc EXCEPT ![Len(acc)] = <<@[1], m[2]>>], TRUE)
       ELSE MergePrev(Tail(ms), Append(acc, <<m[1], m[2]>>), m[3] = 1)
RECURSIVE MergeNext(_, _, _)
MergeNext(ms, acc, next) ==   \* from the right
  IF ms = <<>> THEN acc
  ELSE LET m == ms[Len(ms)]
           rest == SubSeq(ms, 1, Len(ms) - 1) IN
       IF m[3] = 1 /\ ~next /\ acc # <<>> THEN MergeNext(rest, <<<<m[1], acc[1][2]>>>> \o Tail(acc), TRUE)
       ELSE MergeNext(rest, << <<m[1], m[2]>> >> \o acc, m[3] = 1)
RECURSIVE Contiguous(_, _, _)
Contiguous(ms, acc, prev) ==
  IF ms = <<>> THEN acc
  ELSE LET m == Head(ms) IN
       IF acc # <<>> /\ m[3] = prev THEN Contiguous(Tail(ms), [acc EXCEPT ![Len(acc)] = <<@[1], m[2]>>], m[3])
       ELSE Contiguous(Tail(ms), Append(acc, <<m[1], m[2]>>), m[3])
PieceSpans(ms, b) ==
  CASE b = 0 -> LET u == SelectSeq(ms, LAMBDA m : m[3] = 0) IN [i \in 1..Len(u) |-> <<u[i][1], u[i][2]>>]
    [] b = 1 -> [i \in 1..Len(ms) |-> <<ms[i][1], ms[i][2]>>]
    [] b = 2 -> MergePrev(ms, <<>>, FALSE)
    [] b = 3 -> MergeNext(ms, <<>>, FALSE)
    [] b = 4 -> Contiguous(ms, <<>>, 0)
Piece(n, i, j) == IF i = j THEN [n EXCEPT !.norm = <<>>, !.orig = <<>>] ELSE SliceNorm(n, i, j)
SplitBy(n, p, b) ==
  LET sp == PieceSpans(Matches(p, Text(n)), b) IN TLCEval([i \in 1..Len(sp) |-> Piece(n, sp[i][1], sp[i][2])])

\* replacing every match by the content
RECURSIVE ReplaceTiles(_, _, _)
ReplaceTiles(m, ms, content) ==
  IF ms = <<>> THEN <<>>
  ELSE LET x == Head(ms) IN
       (IF x[3] = 0 THEN SubSeq(m, x[1] + 1, x[2]) ELSE (IF x[1] = x[2] THEN <<>> ELSE Chars2(content, m[x[2]])))
       \o ReplaceTiles(m, Tail(ms), content)
ReplaceText(n, p, content) == WithNorm(n, ReplaceTiles(n.norm, Matches(p, Text(n)), content))

------------------------------------------------------------ \* normalizers
BertClean(n) == MapChars(Keep(n, LAMBDA c : Rune(c) # 0 /\ Rune(c) # Bad /\ ~BertControl(Rune(c))), LAMBDA c : IF BertSpace(c) THEN 32 ELSE c)
RECURSIVE ChineseSpaced(_, _)
ChineseSpaced(m, k) ==   \* characters from the k-th on
  IF k > Len(m) THEN <<>>
  ELSE LET x == [m[k] EXCEPT !.c = Rune(@)]
           before == IF k = 1 THEN Edge ELSE m[k - 1]
       IN (IF Chinese(x.c) THEN Chars2(<<32>>, before) \o <<x>> \o Chars2(<<32>>, x) ELSE <<x>>) \o ChineseSpaced(m, k + 1)
NoAccents(n) == Keep(n, LAMBDA c : ~IsMn(c))
\* sentencepiece's precompiled map: map is a sequence of <<from, to>>; a text is
\* rewritten by the shortest rule it starts with; a short cluster of characters
\* as a whole, all else character by character
RuleFor(map, s) ==   \* <<>> or <<to>>
  LET M == {i \in 1..Len(map) : IsPrefixOf(map[i][1], s)} IN
  IF M = {} THEN <<>> ELSE <<map[CHOOSE i \in M : \A j \in M : Len(map[i][1]) <= Len(map[j][1])][2]>>
\* the pieces of a text that are looked up, with what they become
MapPieces(map, s) ==
  LET gs == Graphemes(s)
      parts(g) == IF Bytes(g) < 6 /\ RuleFor(map, g) # <<>> THEN << [old |-> g, to |-> RuleFor(map, g)] >>
                  ELSE [i \in 1..Len(g) |-> [old |-> <<Rune(g[i])>>, to |-> RuleFor(map, <<Rune(g[i])>>)]]
  IN Flatten([i \in 1..Len(gs) |-> parts(gs[i])])
\* what is removed in front goes before the list; elsewhere with what comes before it
RECURSIVE MapChanges(_, _, _)
MapChanges(ps, cm, init) ==
  IF ps = <<>> THEN [cm |-> cm, init |-> init]
  ELSE LET old == Head(ps).old
           new == IF Head(ps).to = <<>> THEN old ELSE Head(ps).to[1]
           d == Len(new) - Len(old)
           all == cm \o [i \in 1..Len(new) |-> <<new[i], IF i > Len(old) THEN 1 ELSE 0>>]
       IN IF cm = <<>> /\ new = <<>> THEN MapChanges(Tail(ps), cm, init + Len(old))
          ELSE MapChanges(Tail(ps), IF d < 0 THEN [all EXCEPT ![Len(all)] = <<@[1], @[2] + d>>] ELSE all, init)
MapText(n, map) ==
  LET ps == MapPieces(map, Text(n))
      r == MapChanges(ps, <<>>, 0)
  IN IF \A i \in 1..Len(ps) : ps[i].to = <<>> THEN n ELSE Transform(n, 0, Len(n.norm), r.cm, r.init)
RECURSIVE Normalize(_, _)
RECURSIVE NormSeq(_, _)
NormSeq(ps, n) == IF ps = <<>> THEN n ELSE NormSeq(Tail(ps), Normalize(Head(ps), n))
Normalize(p, n) ==
  CASE p.k = "nf" -> NormalForm(n, p.f)
    [] p.k = "lower" -> ToLower(n)
    [] p.k = "default" -> LET x == IF p.lower = 1 THEN ToLower(n) ELSE n IN IF p.strip = 1 THEN StripText(x, TRUE, TRUE) ELSE x
    [] p.k = "strip" -> StripText(n, p.l = 1, p.r = 1)
    [] p.k = "accents" -> NoAccents(n)
    [] p.k = "prepend" -> Prepend(n, p.s)
    [] p.k = "replace" -> ReplaceText(n, p.p, p.s)
    [] p.k = "bert" -> LET a == IF p.clean = 1 THEN BertClean(n) ELSE n
                           b == IF p.chinese = 1 THEN WithNorm(a, ChineseSpaced(a.norm, 1)) ELSE a
                           c == IF p.lower = 1 THEN ToLower(b) ELSE b
                       IN IF p.accents = 1 THEN NoAccents(NormalForm(c, 2)) ELSE c
    [] p.k = "spm" -> MapText(n, p.map)
    [] p.k = "seq" -> NormSeq(p.ps, n)

--------------------------------------------------------------- \* steps
(* a step gives [n |-> new state, ret |-> what is returned]                  *)
Skip(n) == [n |-> n, ret |-> <<-1>>]
Done(n) == [n |-> n, ret |-> <<>>]
Step(n, s) ==
  CASE s.a = "filter" -> Done(Keep(n, LAMBDA c : ~(IF s.cls = "" THEN Rune(c) \in Range(s.cs) ELSE InClass(s.cls, Rune(c)))))
    [] s.a = "prepend" -> Done(Prepend(n, s.s))
    [] s.a = "append" -> Done(AppendText(n, s.s))
    [] s.a = "lower" -> Done(ToLower(n))
    [] s.a = "upper" -> Done(ToUpper(n))
    [] s.a \in {"map", "each"} -> Done(MapChars(n, LAMBDA c : IF Rune(c) = s.c THEN s.d ELSE Rune(c)))
    [] s.a = "nf" -> Done(NormalForm(n, s.f))
    [] s.a = "accents" -> Done(NoAccents(n))
    [] s.a = "strip" -> Done(StripText(n, s.l = 1, s.r = 1))
    [] s.a = "clear" -> Done(ClearText(n))
    [] s.a = "replace" -> Done(ReplaceText(n, s.p, s.s))
    [] s.a = "normalize" -> Done(Normalize(s.p, n))
    [] s.a = "transform" ->       \* whole text
         IF s.init + Consumed(s.cm) > Len(n.norm) THEN Skip(n) ELSE Done(Transform(n, 0, Len(n.norm), s.cm, s.init))
    [] s.a = "range" ->           \* characters i..j-1 of the normalized text (on = 1) or of the original (on = 0)
         LET L == IF s.on = 1 THEN Len(n.norm) ELSE Len(n.orig) IN
         IF s.i >= s.j \/ s.j > L THEN Skip(n)
         ELSE LET r == IF s.on = 1 THEN <<s.i, s.j>>
                       ELSE LET b == Conv(n, 0, PosOf(n.orig, s.i), PosOf(n.orig, s.j)) IN <<CharAt(Text(n), b[1]), CharAt(Text(n), b[2])>>
              IN IF s.init + Consumed(s.cm) > r[2] - r[1] THEN Skip(n) ELSE Done(Transform(n, r[1], r[2], s.cm, s.init))
    [] s.a = "slice" ->
         LET L == IF s.on = 1 THEN Len(n.norm) ELSE Len(n.orig) IN
         IF s.i >= s.j \/ s.j > L THEN Skip(n)
         ELSE Done(IF s.on = 1 THEN SliceNorm(n, s.i, s.j) ELSE SliceOrig(n, s.i, s.j))
    [] s.a = "slicebytes" ->      \* any byte range: outside of character boundaries there is no slice
         LET t == IF s.on = 1 THEN Text(n) ELSE n.orig
             e == Min2(s.j, Bytes(t))
         IN IF s.i < e /\ s.i >= 0 /\ s.i \in Boundaries(t) /\ e \in Boundaries(t)
            THEN LET x == CharAt(t, s.i) y == CharAt(t, e)
                 IN [n |-> n, ret |-> <<View(IF s.on = 1 THEN SliceNorm(n, x, y) ELSE SliceOrig(n, x, y))>>]
            ELSE IF s.i = e THEN Skip(n) ELSE Done(n)
    [] s.a = "rebuild" -> [n |-> n, ret |-> <<Bytes(Text(n)), Bytes(n.orig), B2I(n.norm = <<>>)>>]
    [] s.a = "convert" ->         \* positions in bytes and in characters
         LET t == Text(n)  len == Len(t)  x == IF s.i = 0 /\ s.j = 0 THEN 0 ELSE -1
             ends == {k \in 0..len : PosOf(t, k) = s.j /\ k > 0 /\ PosOf(t, k - 1) >= s.i}     \* ends of characters among them
             from == IF s.k = 0 THEN 0 ELSE s.i
             to == IF s.k = 0 THEN len ELSE Min2(s.j, len)
         IN [n |-> n, ret |-> [chars |-> <<IF s.i < Bytes(t) /\ s.i \in Boundaries(t) THEN CharAt(t, s.i) ELSE x,
                                           IF ends # {} \/ (s.i <= s.j /\ s.j < Bytes(t) /\ s.j \in Boundaries(t)) THEN CharAt(t, s.j) ELSE x>>,
                               bytes |-> IF s.i >= len THEN <<x, x>> ELSE <<PosOf(t, s.i), PosOf(t, Min2(s.j, len))>>,
                               of |-> IF from >= to THEN <<>> ELSE [k \in 1..(to - from) |-> Rune(t[from + k])],
                               range |-> <<s.i, s.j, s.j - s.i, 1, 2, s.i, s.j>>]]
    [] s.a = "kinds" ->
         [n |-> n, ret |-> [k \in 1..Len(n.norm) |-> LET c == Rune(n.norm[k].c) IN <<B2I(Chinese(c)), B2I(BertSpace(c)), B2I(BertSpace(c)), B2I(BertPunct(c)), B2I(BertPunct(c))>>]]
    [] s.a = "conv" -> [n |-> n, ret |-> Conv(n, s.on, s.i, s.j)]
    [] s.a = "texts" ->           \* the two texts of a range given on either side
         LET L == IF s.on = 1 THEN Len(n.norm) ELSE Len(n.orig) IN
         IF s.i >= s.j \/ s.j > L THEN Skip(n)
         ELSE LET t == IF s.on = 1 THEN Text(n) ELSE n.orig
                  o == IF s.on = 1 THEN n.orig ELSE Text(n)
                  b == Conv(n, s.on, PosOf(t, s.i), PosOf(t, s.j))
                  other == SubSeq(o, CharAt(o, b[1]) + 1, CharAt(o, b[2]))
                  own == SubSeq(t, s.i + 1, s.j)
              IN [n |-> n, ret |-> IF s.on = 1 THEN <<own, other>> ELSE <<other, own>>]
    [] s.a = "match" -> [n |-> n, ret |-> LET t == Text(n) m == Matches(s.p, t) IN [i \in 1..Len(m) |-> <<PosOf(t, m[i][1]), PosOf(t, m[i][2]), m[i][3]>>]]
    [] s.a = "split" ->           \* goes on with the k-th piece
         LET ps == SplitBy(n, s.p, s.b) IN
         [n |-> IF s.k < Len(ps) THEN ps[s.k + 1] ELSE n, ret |-> [i \in 1..Len(ps) |-> View(ps[i])]]
============================================================================
