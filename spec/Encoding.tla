----------------------------- MODULE Encoding -----------------------------
(* The encoding life cycle of sugarme/tokenizer (encoding.go, util.go,      *)
(* tokenizer.go, processor/, pretokenizer/bytelevel.go): what truncation,   *)
(* padding, merging, post-processing and the position lookups do to an      *)
(* encoding.  A token is a record with one field per parallel slice of the  *)
(* Go struct; an encoding is its tokens, its overflow parts and its         *)
(* sequence ranges.  The state of the machine is a row of slots holding     *)
(* encodings; every public operation is one action on the slots.            *)
EXTENDS Util

Missing == -9            \* the optional Words slice is absent
NoWord  == -1
SpaceCh == 288           \* U+0120, the byte-level picture of a space

Flat(t, r) == [t |-> t, rng |-> r]
Enc(t, over, r) == [t |-> t, over |-> over, rng |-> r]
Empty == Enc(<<>>, <<>>, <<>>)
HasWords(t) == \A i \in 1..Len(t) : t[i].w # Missing
FillWords(t) == [i \in 1..Len(t) |-> IF t[i].w = Missing THEN [t[i] EXCEPT !.w = NoWord] ELSE t[i]]
PadTok(p) == [id |-> p.id, ty |-> p.ty, tk |-> p.tk, o1 |-> 0, o2 |-> 0, w |-> NoWord, sp |-> 1, at |-> 0]

------------------------------------------------------------ \* truncation
RECURSIVE Windows(_, _, _, _)
Windows(t, start, max, stride) ==
  IF start + stride >= Len(t) THEN <<>>
  ELSE <<Flat(SubSeq(t, start + 1, Min2(start + max, Len(t))), <<>>)>>
       \o Windows(t, start + (max - stride), max, stride)

TruncErr(max, stride) == stride >= max \/ max = 0
Truncate(e, max, stride) ==
  IF max >= Len(e.t) THEN e
  ELSE Enc(Take(e.t, max), Windows(e.t, max - stride, max, stride), <<>>)

\* truncation to an exact length as the pair truncation does it
TruncTo(e, n, stride) ==
  IF n >= Len(e.t) THEN e
  ELSE IF n = 0 THEN Enc(<<>>, <<Flat(e.t, <<>>)>>, <<>>)
  ELSE Truncate(e, n, Min2(stride, n - 1))

RECURSIVE LongestFirst(_, _, _)
LongestFirst(n1, n2, r) ==
  IF r = 0 THEN <<n1, n2>>
  ELSE IF n1 > n2 THEN LongestFirst(n1 - 1, n2, r - 1)
  ELSE LongestFirst(n1, n2 - 1, r - 1)

\* strategies: 0 longest first, 1 only first, 2 only second
TruncPairPre(a, b, hasB, max, strat) ==
  LET tot == Len(a.t) + (IF hasB THEN Len(b.t) ELSE 0) IN
  \/ max > 0 /\ tot <= max
  \/ max > 0 /\ strat = 0
  \/ max > 0 /\ strat = 1 /\ Len(a.t) > tot - max
  \/ max > 0 /\ strat = 2 /\ hasB /\ Len(b.t) > tot - max
TruncPair(a, b, hasB, max, strat, stride) ==
  LET tot == Len(a.t) + (IF hasB THEN Len(b.t) ELSE 0)
      rem == tot - max IN
  IF tot <= max THEN <<a, b>>
  ELSE IF strat = 0 THEN
         LET n == LongestFirst(Len(a.t), IF hasB THEN Len(b.t) ELSE 0, rem)
         IN <<TruncTo(a, n[1], stride), IF hasB THEN TruncTo(b, n[2], stride) ELSE b>>
  ELSE IF strat = 1 THEN <<TruncTo(a, Len(a.t) - rem, stride), b>>
  ELSE <<a, TruncTo(b, Len(b.t) - rem, stride)>>

--------------------------------------------------------------- \* padding
\* p = [id, ty, tk, left]
PadFlat(f, target, p) ==
  LET n == target - Len(f.t)
      pads == Rep(PadTok(p), n) IN
  IF n <= 0 THEN f
  ELSE IF p.left = 1
       THEN Flat(pads \o FillWords(f.t), [i \in 1..Len(f.rng) |-> <<f.rng[i][1], f.rng[i][2] + n, f.rng[i][3] + n>>])
       ELSE Flat(FillWords(f.t) \o pads, f.rng)
Pad(e, target, p) ==
  LET m == PadFlat(Flat(e.t, e.rng), target, p)
  IN Enc(m.t, [i \in 1..Len(e.over) |-> PadFlat(e.over[i], target, p)], m.rng)
Longest(es) == IF es = <<>> THEN 0 ELSE MaxOf({Len(es[i].t) : i \in 1..Len(es)})
\* fixed < 0 : to the longest of the batch
PadBatch(es, fixed, p) ==
  LET target == IF fixed >= 0 THEN fixed ELSE Longest(es)
  IN [i \in 1..Len(es) |-> Pad(es[i], target, p)]

--------------------------------------------------------------- \* merging
RECURSIVE SortRng(_)
SortRng(S) == IF S = {} THEN <<>>
              ELSE LET m == CHOOSE x \in S : \A y \in S : x[1] <= y[1]
                   IN <<m>> \o SortRng(S \ {m})
MergeRng(r1, r2, n) ==
  LET ids2 == {r2[i][1] : i \in 1..Len(r2)}
  IN SortRng({r1[i] : i \in {k \in 1..Len(r1) : r1[k][1] \notin ids2}}
             \cup {<<r2[i][1], r2[i][2] + n, r2[i][3] + n>> : i \in 1..Len(r2)})
MergeFlat(x, y, grow) ==
  LET s == IF grow = 1 /\ x.t # <<>> THEN x.t[Len(x.t)].o2 ELSE 0
      y2 == [i \in 1..Len(y.t) |-> [y.t[i] EXCEPT !.o1 = @ + s, !.o2 = @ + s]]
      none == (\A i \in 1..Len(x.t) : x.t[i].w = Missing) /\ (\A i \in 1..Len(y.t) : y.t[i].w = Missing)
      t == IF none THEN x.t \o y2 ELSE FillWords(x.t) \o FillWords(y2)
  IN Flat(t, MergeRng(x.rng, y.rng, Len(x.t)))
Main(e) == Flat(e.t, e.rng)
Merge(a, b, grow) ==
  LET withAll(o) == <<MergeFlat(o, Main(b), grow)>> \o [j \in 1..Len(b.over) |-> MergeFlat(o, b.over[j], grow)]
      over == Flatten([i \in 1..Len(a.over) |-> withAll(a.over[i])])
              \o [j \in 1..Len(b.over) |-> MergeFlat(Main(a), b.over[j], grow)]
      m == MergeFlat(Main(a), Main(b), grow)
  IN Enc(m.t, over, m.rng)
RECURSIVE MergeAll(_, _)
MergeAll(es, grow) == IF es = <<>> THEN Empty
                      ELSE IF Len(es) = 1 THEN es[1]
                      ELSE MergeAll(<<Merge(es[1], es[2], grow)>> \o SubSeq(es, 3, Len(es)), grow)

------------------------------------------------------ \* post-processing
WholeRng(sid, start, n) == IF n > 0 THEN << <<sid, start, start + n>> >> ELSE <<>>
SetTypes(t, ty) == [i \in 1..Len(t) |-> [t[i] EXCEPT !.ty = ty]]
\* made of sequences already, or of special tokens around nothing
Composed(e) == e.rng # <<>> \/ (e.t # <<>> /\ \A i \in 1..Len(e.t) : e.t[i].sp # 0)
Prepare(e, i) ==
  IF Composed(e) THEN e
  ELSE Enc(SetTypes(e.t, i),
           [k \in 1..Len(e.over) |-> Flat(e.over[k].t, WholeRng(i, 0, Len(e.over[k].t)))],
           WholeRng(i, 0, Len(e.t)))
DefaultProcess(a, b, hasB) == IF hasB THEN Merge(Prepare(a, 0), Prepare(b, 1), 0) ELSE a

SpTok(tok, ty, w) == [id |-> tok.id, ty |-> ty, tk |-> tok.tk, o1 |-> 0, o2 |-> 0, w |-> w, sp |-> 1, at |-> 1]
Plain(t) == [i \in 1..Len(t) |-> [FillWords(t)[i] EXCEPT !.sp = 0, !.at = 1]]
\* pre, t, post with type id ty on the special tokens; the tokens are sequence sid
Wrap(f, pre, post, ty, sid) ==
  Flat([i \in 1..Len(pre) |-> SpTok(pre[i], ty, NoWord)] \o Plain(f.t) \o [i \in 1..Len(post) |-> SpTok(post[i], ty, NoWord)],
       WholeRng(sid, Len(pre), Len(f.t)))
WrapEnc(e, pre, post, ty, sid) ==
  LET m == Wrap(Main(e), pre, post, ty, sid)
  IN Enc(m.t, [k \in 1..Len(e.over) |-> Wrap(e.over[k], pre, post, ty, sid)], m.rng)

\* offset trimming of byte-level tokens
LeadSp(tk) == LET S == {i \in 1..Len(tk) : tk[i] # SpaceCh} IN IF S = {} THEN Len(tk) ELSE MinOf(S) - 1
TrailSp(tk) == LET S == {i \in 1..Len(tk) : tk[i] # SpaceCh} IN IF S = {} THEN Len(tk) ELSE Len(tk) - MaxOf(S)
TrimTok(tok, first, prefix) ==
  LET lead == LeadSp(tok.tk)
      ld == IF first /\ prefix = 1 /\ lead = 1 THEN 0 ELSE lead
      tr == TrailSp(tok.tk)
      o1 == Min2(tok.o1 + ld, Max2(tok.o2, tok.o1))
      o2 == IF tr > 0 /\ tok.o2 >= tr THEN Max2(tok.o2 - tr, o1) ELSE tok.o2
  IN [tok EXCEPT !.o1 = o1, !.o2 = o2]
TrimFlat(f, prefix) == Flat([i \in 1..Len(f.t) |-> TrimTok(f.t[i], i = 1, prefix)], f.rng)
TrimEnc(e, prefix) ==
  LET m == TrimFlat(Main(e), prefix)
  IN Enc(m.t, [k \in 1..Len(e.over) |-> TrimFlat(e.over[k], prefix)], m.rng)

\* processors are records with a kind field k
SetSeq(r, sid, n) == IF n = 0 THEN r ELSE WholeRng(sid, 0, n)
TplPiece(p, encs, add, words) ==
  IF p.k = "seq"
  THEN LET e == encs[p.s + 1]
       IN <<Enc(SetTypes(e.t, p.ty), e.over, IF Len(e.rng) > 1 THEN e.rng ELSE SetSeq(e.rng, p.s, Len(e.t)))>>
  ELSE IF add = 1
  THEN <<Enc([i \in 1..Len(p.toks) |-> SpTok(p.toks[i], p.ty, IF words THEN NoWord ELSE Missing)], <<>>, <<>>)>>
  ELSE <<>>
TplAdded(tpl) == SumSeq([i \in 1..Len(tpl) |-> IF tpl[i].k = "seq" THEN 0 ELSE Len(tpl[i].toks)])

Added1(p, pair) ==
  IF p.k = "bert" THEN (IF pair THEN 3 ELSE 2)
  ELSE IF p.k = "roberta" THEN (IF pair THEN 4 ELSE 2)
  ELSE IF p.k = "tpl" THEN TplAdded(IF pair THEN p.pair ELSE p.single)
  ELSE 0
Added(p, pair) == IF p.k = "sequ" THEN SumSeq([i \in 1..Len(p.ps) |-> Added1(p.ps[i], pair)]) ELSE Added1(p, pair)

ProcessOne(p, a, b, hasB, add) ==
  IF p.k = "none" THEN DefaultProcess(a, b, hasB)
  ELSE IF p.k = "bert" THEN
    IF add = 0 THEN DefaultProcess(a, b, hasB)
    ELSE LET x == WrapEnc(a, <<p.cls>>, <<p.sep>>, 0, 0)
         IN IF hasB THEN Merge(x, WrapEnc(b, <<>>, <<p.sep>>, 1, 1), 0) ELSE x
  ELSE IF p.k = "roberta" THEN
    LET a2 == IF p.trim = 1 THEN TrimEnc(a, p.prefix) ELSE a
        b2 == IF p.trim = 1 THEN TrimEnc(b, p.prefix) ELSE b
    IN IF add = 0 THEN DefaultProcess(a2, b2, hasB)
       ELSE LET x == WrapEnc(a2, <<p.cls>>, <<p.sep>>, 0, 0)
            IN IF hasB THEN Merge(x, WrapEnc(b2, <<p.sep>>, <<p.sep>>, 1, 1), 0) ELSE x
  ELSE IF p.k = "bytelevel" THEN
    LET a1 == Prepare(a, 0)
        b1 == Prepare(b, 1)
        a2 == IF p.trim = 1 THEN TrimEnc(a1, p.prefix) ELSE a1
        b2 == IF p.trim = 1 THEN TrimEnc(b1, p.prefix) ELSE b1
    IN IF hasB THEN Merge(a2, b2, 0) ELSE a2
  ELSE \* template
    LET encs == IF hasB THEN <<Prepare(a, 0), Prepare(b, 1)>> ELSE <<Prepare(a, 0)>>
        words == \A i \in 1..Len(encs) : HasWords(encs[i].t)
        tpl == IF hasB THEN p.pair ELSE p.single
        parts == Flatten([i \in 1..Len(tpl) |-> TplPiece(tpl[i], encs, add, words)])
    IN MergeAll(parts, 0)

\* a sequence: members that insert nothing and have no template work on each sequence separately,
\* the last member (or the first that inserts something) merges them
NoRng(e) == Enc(e.t, [k \in 1..Len(e.over) |-> Flat(e.over[k].t, <<>>)], <<>>)
RetypeTo(e, orig) == Enc([i \in 1..Len(e.t) |-> [e.t[i] EXCEPT !.ty = orig.t[i].ty]], e.over, e.rng)
RECURSIVE ProcessSeq(_, _, _, _, _)
ProcessSeq(ps, a, b, hasB, add) ==
  IF ps = <<>> THEN a
  ELSE LET p == Head(ps) IN
    IF hasB /\ Len(ps) > 1 /\ Added1(p, TRUE) = 0 /\ p.k # "tpl"
    THEN ProcessSeq(Tail(ps), ProcessOne(p, a, Empty, FALSE, add),
                    NoRng(RetypeTo(ProcessOne(p, b, Empty, FALSE, add), b)), TRUE, add)
    ELSE ProcessSeq(Tail(ps), ProcessOne(p, a, b, hasB, add), Empty, FALSE, add)
\* post-processing is for encodings of one sequence each
ProcPre(e, sid) == e.rng = <<>> \/ e.rng = WholeRng(sid, 0, Len(e.t))
Process(p, a, b, hasB, add) == IF p.k = "sequ" THEN ProcessSeq(p.ps, a, b, hasB, add) ELSE ProcessOne(p, a, b, hasB, add)

--------------------------------------------------------------- \* lookups
InRng(r, i) == r[2] <= i /\ i < r[3]      \* i is a 0-based token position
SeqOf(e, i) == IF i < 0 \/ i >= Len(e.t) THEN -1
               ELSE IF e.rng = <<>> THEN 0
               ELSE LET S == {k \in 1..Len(e.rng) : InRng(e.rng[k], i)}
                    IN IF S = {} THEN -1 ELSE e.rng[MinOf(S)][1]
WordToks(e, w) ==
  LET S == {i \in 1..Len(e.t) : e.t[i].w = w} IN
  IF w < 0 \/ S = {} THEN <<>>
  ELSE LET first == MinOf(S)
           same == {i \in S : SeqOf(e, i - 1) = SeqOf(e, first - 1)}
       IN <<first - 1, MaxOf(same)>>
WordChars(e, w) ==
  LET r == WordToks(e, w) IN IF r = <<>> THEN <<>> ELSE <<e.t[r[1] + 1].o1, e.t[r[2]].o2>>
TokChars(e, i) == IF i < 0 \/ i >= Len(e.t) THEN <<>> ELSE <<e.t[i + 1].o1, e.t[i + 1].o2>>
TokWord(e, i) == IF i < 0 \/ i >= Len(e.t) \/ e.t[i + 1].w < 0 THEN <<>> ELSE <<e.t[i + 1].w>>
CharTok(e, c) == LET S == {i \in 1..Len(e.t) : e.t[i].o1 <= c /\ c < e.t[i].o2}
                 IN IF S = {} THEN <<>> ELSE <<MinOf(S) - 1>>
CharWord(e, c) == LET k == CharTok(e, c) IN IF k = <<>> THEN <<>> ELSE TokWord(e, k[1])
TokSeq(e, i) == LET s == SeqOf(e, i) IN IF s = -1 THEN <<>> ELSE <<s>>
SeqRange(e, s) ==
  IF e.rng = <<>> THEN (IF s = 0 /\ e.t # <<>> THEN <<0, Len(e.t)>> ELSE <<>>)
  ELSE LET S == {k \in 1..Len(e.rng) : e.rng[k][1] = s}
       IN IF S = {} THEN <<>> ELSE <<e.rng[MinOf(S)][2], e.rng[MinOf(S)][3]>>
NSeq(e) == IF e.rng = <<>> THEN 1 ELSE Len(e.rng)

\* all lookups up to index n, starting at -1
Lookups(e, n) == [
  w2t |-> [i \in 1..(n + 2) |-> WordToks(e, i - 2)],
  w2c |-> [i \in 1..(n + 2) |-> WordChars(e, i - 2)],
  t2c |-> [i \in 1..(n + 2) |-> TokChars(e, i - 2)],
  t2w |-> [i \in 1..(n + 2) |-> TokWord(e, i - 2)],
  c2t |-> [i \in 1..(n + 2) |-> CharTok(e, i - 2)],
  c2w |-> [i \in 1..(n + 2) |-> CharWord(e, i - 2)],
  t2s |-> [i \in 1..(n + 2) |-> TokSeq(e, i - 2)],
  srg |-> [i \in 1..4 |-> SeqRange(e, i - 2)],
  \* the sequence of each token; tokens of no sequence are reported as 0
  sids |-> [i \in 1..Len(e.t) |-> IF SeqOf(e, i - 1) < 0 THEN 0 ELSE SeqOf(e, i - 1)],
  nseq |-> NSeq(e)]

------------------------------------------------------- \* the state machine
\* a step is a record with field a; slots are numbered from 1.
\* Apply gives the slots afterwards and what the call reported.
R(slots, ret) == [slots |-> slots, ret |-> ret]
Ok == <<0>>
Skip == <<-1>>
Apply(slots, s) ==
  CASE s.a = "trunc" ->
       IF TruncErr(s.max, s.stride) THEN R(slots, <<1>>)
       ELSE R([slots EXCEPT ![s.i] = Truncate(@, s.max, s.stride)], Ok)
    [] s.a = "trunc2" ->
       LET hasB == s.j # 0
           b == IF hasB THEN slots[s.j] ELSE Empty
       IN IF ~TruncPairPre(slots[s.i], b, hasB, s.max, s.strat) THEN R(slots, Skip)
          ELSE LET r == TruncPair(slots[s.i], b, hasB, s.max, s.strat, s.stride)
               IN R(IF hasB THEN [slots EXCEPT ![s.i] = r[1], ![s.j] = r[2]] ELSE [slots EXCEPT ![s.i] = r[1]], Ok)
    [] s.a = "pad" -> R([slots EXCEPT ![s.i] = Pad(@, s.target, s.p)], Ok)
    [] s.a = "padall" -> R(PadBatch(slots, s.target, s.p), Ok)
    [] s.a = "merge" -> R([slots EXCEPT ![s.i] = Merge(@, slots[s.j], s.grow)], Ok)
    [] s.a = "mergeall" -> R([slots EXCEPT ![1] = MergeAll(slots, s.grow)], Ok)
    [] s.a \in {"copy", "clone"} -> R([slots EXCEPT ![s.j] = slots[s.i]], Ok)
    [] s.a = "fromtoks" ->        \* made of the tokens of another
         R([slots EXCEPT ![s.i] = Enc([k \in 1..Len(slots[s.j].t) |-> [slots[s.j].t[k] EXCEPT !.ty = s.ty, !.w = Missing, !.sp = 0, !.at = 1]], <<>>, <<>>)], Ok)
    [] s.a = "types" -> R([slots EXCEPT ![s.i].t = SetTypes(@, s.ty)], Ok)
    [] s.a = "seqids" -> \* all of it is this sequence
         R([slots EXCEPT ![s.i].rng = SetSeq(@, s.ty, Len(slots[s.i].t))], Ok)
    [] s.a = "setword" -> IF s.n >= Len(slots[s.i].t) \/ ~HasWords(slots[s.i].t) THEN R(slots, Skip) ELSE R([slots EXCEPT ![s.i].t[s.n + 1].w = s.ty], Ok)
    [] s.a = "take" -> R([slots EXCEPT ![s.i].over = <<>>], slots[s.i].over)
    [] s.a = "give" -> R([slots EXCEPT ![s.i].over = <<Main(slots[s.j])>>], Ok)
    [] s.a = "proc" ->
       LET hasB == s.j # 0
           b == IF hasB THEN slots[s.j] ELSE Empty
           res == Process(s.p, slots[s.i], b, hasB, s.add)
           n == Added(s.p, hasB)
       IN IF ~ProcPre(slots[s.i], 0) \/ ~ProcPre(b, 1) THEN R(slots, Skip) ELSE R(IF hasB THEN [slots EXCEPT ![s.i] = res, ![s.j] = Empty] ELSE [slots EXCEPT ![s.i] = res], <<0, n>>)
    [] s.a = "look" -> R(slots, Lookups(slots[s.i], s.n))
============================================================================
