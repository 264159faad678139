------------------------------- MODULE PreTok -------------------------------
(* The pre-tokenized string: the original text cut into splits, each one a   *)
(* normalized string that may already carry tokens, and what each            *)
(* pre-tokenizer, and making an encoding of it, do.                          *)
EXTENDS Normalized

Split(n) == [n |-> n, tk |-> 0, toks |-> <<>>]
Start(n) == [orig |-> n.orig, sp |-> <<Split(n)>>]

-------------------------------------------------------- \* byte-level form
Utf8(c) ==
  IF c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + (c \div 64), 128 + (c % 64)>>
  ELSE IF c < 65536 THEN <<224 + (c \div 4096), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + (c \div 262144), 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
\* the printable character standing for a byte: itself, or the next one from 256 on
Printable(b) == InRange(b, 33, 126) \/ InRange(b, 161, 172) \/ InRange(b, 174, 255)
ByteChars == [b \in 0..255 |-> IF Printable(b) THEN b ELSE 256 + Cardinality({x \in 0..(b - 1) : ~Printable(x)})]
ASSUME TLCSet(43, TLCEval(ByteChars))
ByteChar(b) == TLCGet(43)[b]
ASSUME TLCSet(44, TLCEval([c \in {ByteChar(b) : b \in 0..255} |-> CHOOSE b \in 0..255 : ByteChar(b) = c]))
CharByte(c) == TLCGet(44)[c]
IsByteChar(c) == c \in DOMAIN TLCGet(44)
RECURSIVE BytesOf(_)
BytesOf(s) == IF s = <<>> THEN <<>> ELSE (IF Head(s) < 0 THEN <<-Head(s)>> ELSE Utf8(Head(s))) \o BytesOf(Tail(s))
ByteText(s) == LET b == BytesOf(s) IN TLCEval([i \in 1..Len(b) |-> ByteChar(b[i])])
RECURSIVE ByteNorm(_)
ByteNorm(m) == IF m = <<>> THEN <<>> ELSE Chars2(ByteText(<<Rune(Head(m).c)>>), Head(m)) \o ByteNorm(Tail(m))
\* the bytes a token decodes to; tokens not made of byte characters stand for themselves
TokenBytes(s) == IF \A i \in 1..Len(s) : IsByteChar(s[i]) THEN [i \in 1..Len(s) |-> CharByte(s[i])] ELSE BytesOf(s)

\* words of the byte-level splitter: contractions, then runs of letters, numbers
\* or other characters with one space before, then runs of white space, which
\* leave their last character to the word that follows
Kind(c) == IF IsSpace(c) THEN 0 ELSE IF IsLetter(c) THEN 1 ELSE IF IsNum(c) THEN 2 ELSE 3
RECURSIVE RunOf(_, _, _)
RunOf(s, i, k) == IF i < Len(s) /\ Kind(Rune(s[i + 1])) = k THEN RunOf(s, i + 1, k) ELSE i
At(s, i) == IF i < Len(s) THEN Rune(s[i + 1]) ELSE -1
WordEnd(s, i) ==
  LET one == At(s, i) = 39 /\ At(s, i + 1) \in {115, 116, 109, 100}                         \* 's 't 'm 'd
      two == At(s, i) = 39 /\ <<At(s, i + 1), At(s, i + 2)>> \in {<<114, 101>>, <<118, 101>>, <<108, 108>>}  \* 're 've 'll
      j == IF At(s, i) = 32 /\ i + 1 < Len(s) /\ Kind(At(s, i + 1)) # 0 THEN i + 1 ELSE i
      k == Kind(At(s, j))
      e == RunOf(s, j, k)
  IN IF one THEN i + 2 ELSE IF two THEN i + 3
     ELSE IF k = 0 /\ e < Len(s) /\ e > i + 1 THEN e - 1
     ELSE e
RECURSIVE Words(_, _)
Words(s, i) == IF i >= Len(s) THEN <<>> ELSE LET e == WordEnd(s, i) IN << <<i, e>> >> \o Words(s, e)

--------------------------------------------------------- \* pre-tokenizers
UWord == [n |-> "cls", c |-> "uword", neg |-> 0]
UOther == [n |-> "cls", c |-> "uwordspace", neg |-> 1]
WordsOrSymbols == [k |-> "re", r |-> [n |-> "alt", l |-> [n |-> "plus", l |-> UWord], r |-> [n |-> "plus", l |-> UOther]]]
FnPat(c) == [k |-> "fn", c |-> c]
InvPat(p) == [k |-> "inv", p |-> p]
StrPat(s) == [k |-> "str", s |-> s]
\* scripts: kana are taken as Han, a space goes with whatever precedes
Script(c) == LET sc == Row(c).sc IN
  IF c = 12540 THEN "Han" ELSE IF c = 32 THEN "Any" ELSE IF sc \in {"Hiragana", "Katakana"} THEN "Han" ELSE sc
RECURSIVE ScriptCuts(_, _, _)
ScriptCuts(s, i, last) ==
  IF i >= Len(s) THEN <<Len(s)>>
  ELSE LET sc == Script(Rune(s[i + 1])) IN
       IF sc = "Any" THEN ScriptCuts(s, i + 1, last)
       ELSE (IF sc # last THEN <<i>> ELSE <<>>) \o ScriptCuts(s, i + 1, sc)
HasPrefixText(n, s) == IsPrefixOf(s, Text(n))

Pieces(n, spans) == TLCEval([i \in 1..Len(spans) |-> Piece(n, spans[i][1], spans[i][2])])
RECURSIVE EachSplit(_, _, _)
EachSplit(ns, p, b) == IF ns = <<>> THEN <<>> ELSE SplitBy(Head(ns), p, b) \o EachSplit(Tail(ns), p, b)
\* the pieces of one split, the idx-th (0-based)
PreOf(p, idx, n) ==
  CASE p.k = "ws" -> SplitBy(n, InvPat(WordsOrSymbols), 0)
    [] p.k = "wssplit" -> SplitBy(n, FnPat("space"), 0)
    [] p.k = "punct" -> SplitBy(n, FnPat("bpunct"), p.b)
    [] p.k = "digits" -> SplitBy(n, FnPat("num"), IF p.ind = 1 THEN 1 ELSE 4)
    [] p.k = "delim" -> SplitBy(n, [k |-> "rune", c |-> p.c], 0)
    [] p.k = "bert" -> EachSplit(SplitBy(n, FnPat("space"), 0), FnPat("bpunct"), 1)
    [] p.k = "split" -> SplitBy(n, IF p.inv = 1 THEN InvPat(p.p) ELSE p.p, p.b)
    [] p.k = "meta" ->
         LET r == ReplaceText(n, [k |-> "re", r |-> [n |-> "cls", c |-> "aspace", neg |-> 0]], p.s)
             x == IF (p.scheme = 2 \/ (p.scheme = 1 /\ idx = 0)) /\ ~HasPrefixText(r, p.s) THEN Prepend(r, p.s) ELSE r
         IN SplitBy(x, StrPat(p.s), 3)
    [] p.k = "bl" ->
         LET x == IF p.prefix = 1 /\ ~HasPrefixText(n, <<32>>) THEN Prepend(n, <<32>>) ELSE n
             ps == Pieces(x, Words(Text(x), 0))
         IN TLCEval([i \in 1..Len(ps) |-> WithNorm(ps[i], ByteNorm(ps[i].norm))])
    [] p.k = "script" ->
         LET cs == ScriptCuts(Text(n), 0, "none") IN Pieces(n, [i \in 1..(Len(cs) - 1) |-> <<cs[i], cs[i + 1]>>])
Fresh(ns) == LET m == SelectSeq(ns, LAMBDA x : x.norm # <<>>) IN TLCEval([i \in 1..Len(m) |-> Split(m[i])])
RECURSIVE PreAll(_, _, _)
PreAll(p, sp, idx) ==
  IF sp = <<>> THEN <<>>
  ELSE (IF Head(sp).tk = 1 THEN <<Head(sp)>> ELSE Fresh(PreOf(p, idx, Head(sp).n))) \o PreAll(p, Tail(sp), idx + 1)
RECURSIVE PreTokenize(_, _)
PreTokenize(p, sp) ==
  IF p.k = "seq"
  THEN LET RECURSIVE Go(_, _)
           Go(ps, x) == IF ps = <<>> THEN x ELSE Go(Tail(ps), PreTokenize(Head(ps), x))
       IN Go(p.ps, sp)
  ELSE PreAll(p, sp, 0)

------------------------------------------------------- \* tokens, encodings
Token(id, v, o) == [id |-> id, v |-> v, o |-> o]
\* pieces equal to a match of the pattern get one token at once
RECURSIVE ExtractAll(_, _)
ExtractAll(p, sp) ==
  IF sp = <<>> THEN <<>>
  ELSE (IF Head(sp).tk = 1 THEN <<Head(sp)>>
        ELSE LET n == Head(sp).n
                 ms == Matches(p, Text(n))
                 ps == [i \in 1..Len(ms) |-> LET x == Piece(n, ms[i][1], ms[i][2]) IN
                          IF ms[i][3] = 1 THEN [n |-> x, tk |-> 1, toks |-> <<Token(7, Text(x), <<0, Bytes(Text(x))>>)>>] ELSE Split(x)]
             IN SelectSeq(ps, LAMBDA x : x.n.norm # <<>>))
       \o ExtractAll(p, Tail(sp))
NormAll(p, sp) == [i \in 1..Len(sp) |-> IF sp[i].tk = 1 THEN sp[i] ELSE Split(Normalize(p, sp[i].n))]
\* a model making tokens of w characters; characters equal to drop get no token
RECURSIVE Grams(_, _, _, _)
Grams(s, i, w, drop) ==
  IF i >= Len(s) THEN <<>>
  ELSE LET g == SubSeq(s, i + 1, Min2(i + w, Len(s))) IN
       (IF g[1] = drop THEN <<>> ELSE <<Token(i, g, <<PosOf(s, i), PosOf(s, i + Len(g))>>)>>) \o Grams(s, i + w, w, drop)
TokAll(w, drop, sp) == [i \in 1..Len(sp) |-> IF sp[i].tk = 1 THEN sp[i] ELSE [sp[i] EXCEPT !.tk = 1, !.toks = Grams(Text(sp[i].n), 0, w, drop)]]
CharsAt(s, p) == CharAt(s, p)
Placed(orig, n, o, chars) ==
  LET c == Conv(n, 1, o[1], o[2])
      r == IF c = <<>> THEN <<n.sh + o[1], n.sh + o[2]>> ELSE <<n.sh + c[1], n.sh + c[2]>>
  IN IF chars = 1 THEN <<CharsAt(orig, r[1]), CharsAt(orig, r[2])>> ELSE r
NoEnc == [ids |-> <<>>, tok |-> <<>>, off |-> <<>>, words |-> <<>>, types |-> <<>>, spec |-> <<>>, att |-> <<>>]
EncOf(pt, type, word, chars) ==
  LET all == Flatten([i \in 1..Len(pt.sp) |-> [j \in 1..Len(pt.sp[i].toks) |->
               [t |-> pt.sp[i].toks[j], o |-> Placed(pt.orig, pt.sp[i].n, pt.sp[i].toks[j].o, chars), w |-> IF word = -1 THEN i - 1 ELSE word]]])
      L == Len(all)
  IN [ids |-> [i \in 1..L |-> all[i].t.id], tok |-> [i \in 1..L |-> all[i].t.v], off |-> [i \in 1..L |-> all[i].o],
      words |-> [i \in 1..L |-> all[i].w], types |-> Rep(type, L), spec |-> Rep(0, L), att |-> Rep(1, L)]
Untokenized(pt) == \E i \in 1..Len(pt.sp) : pt.sp[i].tk = 0
\* trimming leaves out the spaces of a token, but not the one put before the text
Spc == 288
RECURSIVE Lead(_)
Lead(s) == IF s # <<>> /\ Head(s) = Spc THEN 1 + Lead(Tail(s)) ELSE 0
Trimmed(e, prefix) ==
  [e EXCEPT !.off = [i \in 1..Len(e.off) |->
     LET l == Lead(e.tok[i])
         r == Lead(Reverse(e.tok[i]))
         o == e.off[i]
         s == Min2(o[2], o[1] + (IF i = 1 /\ prefix = 1 /\ l = 1 THEN 0 ELSE l))
     IN <<s, IF r > 0 /\ o[2] >= r THEN Max2(s, o[2] - r) ELSE o[2]>>]]

\* the sums of the first 0, 1, 2, ... elements
Sums(xs) == LET RECURSIVE Go(_, _)
                Go(acc, i) == IF i > Len(xs) THEN acc ELSE Go(TLCEval(Append(acc, acc[Len(acc)] + xs[i])), i + 1)
            IN Go(<<0>>, 1)
ViewSplits(pt) ==
  LET ts == TLCEval([i \in 1..Len(pt.sp) |-> Text(pt.sp[i].n)])
      nb == TLCEval(Sums([i \in 1..Len(ts) |-> Bytes(ts[i])]))
      nc == TLCEval(Sums([i \in 1..Len(ts) |-> Len(ts[i])]))
  IN TLCEval([i \in 1..Len(ts) |->
       LET x == pt.sp[i]
           o == <<x.n.sh, x.n.sh + Bytes(x.n.orig)>>
       IN [v |-> ts[i], o |-> o, oc |-> <<CharAt(pt.orig, o[1]), CharAt(pt.orig, o[2])>>,
           nb |-> <<nb[i], nb[i + 1]>>, nc |-> <<nc[i], nc[i + 1]>>, tk |-> x.tk, toks |-> x.toks]])
---------------------------------------------------------------- \* steps
\* cuts of a text into tokens, given by increasing positions
CutAt(s, cuts) == LET c == <<0>> \o cuts \o <<Len(s)>> IN [i \in 1..(Len(c) - 1) |-> SubSeq(s, Min2(c[i], Len(s)) + 1, Min2(c[i + 1], Len(s)))]
\* what is decoded is given in bytes: cuts may fall inside of a character
PreStep(pt, s) ==
  CASE s.a = "pre" -> LET p == [pt EXCEPT !.sp = PreTokenize(s.p, @)] IN [pt |-> p, ret |-> ViewSplits(p)]
    [] s.a = "ext" -> LET p == [pt EXCEPT !.sp = ExtractAll(s.p, @)] IN [pt |-> p, ret |-> ViewSplits(p)]
    [] s.a = "norm" -> LET p == [pt EXCEPT !.sp = NormAll(s.p, @)] IN [pt |-> p, ret |-> ViewSplits(p)]
    [] s.a = "tok" -> LET p == [pt EXCEPT !.sp = TokAll(s.w, s.drop, @)] IN [pt |-> p, ret |-> ViewSplits(p)]
    [] s.a = "enc" -> [pt |-> pt, ret |-> IF Untokenized(pt) THEN <<>>
                         ELSE LET e == EncOf(pt, s.type, s.word, s.chars) IN <<IF s.trim = 1 THEN Trimmed(e, s.prefix) ELSE e>>]
    [] s.a = "dec" -> LET toks == [i \in 1..Len(pt.sp) |-> Text(pt.sp[i].n)]     \* every piece cut again into tokens
                          cut == CutAt(Flatten(toks), s.cuts)
                      IN [pt |-> pt, ret |-> Flatten([i \in 1..Len(cut) |-> TokenBytes(cut[i])])]
    [] s.a = "dectoks" -> [pt |-> pt, ret |-> [i \in 1..Len(s.toks) |-> TokenBytes(s.toks[i])]]
    [] s.a = "table" -> [pt |-> pt, ret |-> [chars |-> [i \in 1..256 |-> ByteChar(i - 1)], bytes |-> [i \in 1..256 |-> i - 1], size |-> 256]]
============================================================================
