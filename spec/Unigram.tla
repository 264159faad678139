------------------------------- MODULE Unigram -------------------------------
(* The Unigram model: of all ways to cut a text into pieces of the           *)
(* vocabulary and unknown characters, one with the highest total score.      *)
(*   vocab <<[t, s]>>  texts, all different, and scores in quarters; the id  *)
(*                     of a piece is its place                               *)
(*   unk   <<>> or <<id of the unknown token>>                               *)
(*   fuse  adjacent unknown tokens are made one                              *)
(*   fb    unknown characters are replaced by tokens of their bytes, if all  *)
(*         of these are in the vocabulary                                    *)
(* Returned is [err, toks]; the value of an unknown token is written as the  *)
(* text it stands for.                                                       *)
EXTENDS PreTok
Hex(d) == IF d < 10 THEN 48 + d ELSE 55 + d
ByteToken(b) == <<60, 48, 120, Hex(b \div 16), Hex(b % 16), 62>>
IdOf(m, t) == CHOOSE i \in 0..(Len(m.vocab) - 1) : m.vocab[i + 1].t = t
Listed(m, t) == \E i \in 1..Len(m.vocab) : m.vocab[i].t = t
IsUnk(m, id) == id = -1 \/ m.unk = <<id>>
HasBytes(m, t) == \A i \in 1..Len(BytesOf(t)) : Listed(m, ByteToken(BytesOf(t)[i]))
FallsBack(m, t) == m.fb = 1 /\ HasBytes(m, t)
UnkScore(m) == MinOf({m.vocab[i].s : i \in 1..Len(m.vocab)} \cup (IF m.vocab = <<>> THEN {0} ELSE {})) - 40
\* -------------------------------------------------------- what may come next
\* edges [a, b, id, s] from character a
EdgesAt(m, w, a) ==
  IF a = Len(w) THEN {} ELSE
  LET known == {[a |-> a, b |-> a + Len(m.vocab[i].t), id |-> i - 1, s |-> m.vocab[i].s] :
                 i \in {j \in 1..Len(m.vocab) : m.vocab[j].t # <<>> /\ a + Len(m.vocab[j].t) <= Len(w) /\ Slice(w, a, a + Len(m.vocab[j].t)) = m.vocab[j].t}}
      single == \E e \in known : e.b = a + 1
  IN known \cup (IF ~single /\ (m.unk # <<>> \/ FallsBack(m, Slice(w, a, a + 1)))
                 THEN {[a |-> a, b |-> a + 1, id |-> IF m.unk = <<>> THEN -1 ELSE m.unk[1], s |-> UnkScore(m)]} ELSE {})
None == -1000000000
Top(S) == IF S = {} THEN None ELSE MaxOf(S)
\* best[a + 1]: the best score of the text from character a on
RECURSIVE BestFrom(_, _, _)
BestFrom(edges, n, a) ==
  IF a = n THEN <<0>>
  ELSE LET r == BestFrom(edges, n, a + 1) IN
       <<Top({e.s + r[e.b - a] : e \in {x \in edges[a + 1] : r[x.b - a] # None}})>> \o r
Edges(m, w) == TLCEval([i \in 1..Len(w) |-> EdgesAt(m, w, i - 1)])
\* ------------------------------------------------- what a cutting looks like
Token2(id, v, w, a, b) == [id |-> id, v |-> v, o |-> <<PosOf(w, a), PosOf(w, b)>>]
RECURSIVE ByteTokens(_, _, _, _)
ByteTokens(m, w, a, b) ==
  IF a = b THEN <<>>
  ELSE LET bs == BytesOf(Slice(w, a, a + 1)) IN [i \in 1..Len(bs) |-> Token2(IdOf(m, ByteToken(bs[i])), ByteToken(bs[i]), w, a, a + 1)] \o ByteTokens(m, w, a + 1, b)
RECURSIVE Render(_, _, _, _)
Render(m, w, segs, open) ==      \* open: where the unknown token being put together began, or -1
  LET close(b) == IF open = -1 THEN <<>> ELSE <<Token2(m.unk[1], Slice(w, open, b), w, open, b)>> IN
  IF segs = <<>> THEN close(Len(w))
  ELSE LET e == Head(segs)  t == Slice(w, e.a, e.b) IN
       IF ~IsUnk(m, e.id) THEN close(e.a) \o <<Token2(e.id, t, w, e.a, e.b)>> \o Render(m, w, Tail(segs), -1)
       ELSE IF FallsBack(m, t) THEN close(e.a) \o ByteTokens(m, w, e.a, e.b) \o Render(m, w, Tail(segs), -1)
       ELSE IF m.fuse = 1 THEN Render(m, w, Tail(segs), IF open = -1 THEN e.a ELSE open)
       ELSE <<Token2(m.unk[1], t, w, e.a, e.b)>> \o Render(m, w, Tail(segs), -1)
\* --------------------------- is a list of tokens what a best cutting looks like
\* the best score of characters a to b as one unknown token
RECURSIVE UnkCover(_, _, _, _, _)
UnkCover(m, w, edges, a, b) ==
  IF a = b THEN 0
  ELSE Top({x \in {e.s + (LET r == UnkCover(m, w, edges, e.b, b) IN IF r = None THEN 2 * None ELSE r) :
               e \in {y \in edges[a + 1] : y.b <= b /\ IsUnk(m, y.id) /\ ~FallsBack(m, Slice(w, y.a, y.b))}} : x > None})
CharEnd(w, p) == IF \E i \in 0..Len(w) : PosOf(w, i) = p THEN CHOOSE i \in 0..Len(w) : PosOf(w, i) = p ELSE -1
\* the score of tokens from the k-th on, which continue at character a; None if they are wrong
RECURSIVE ScoreOf(_, _, _, _, _, _, _)
ScoreOf(m, w, edges, toks, k, a, after) ==    \* after: 1 right after an unknown token
  IF k > Len(toks) THEN IF a = Len(w) THEN 0 ELSE None
  ELSE IF a = Len(w) THEN None ELSE
  LET x == toks[k]
      b == CharEnd(w, x.o[2])
      t == IF b > a THEN Slice(w, a, b) ELSE <<>>
      plus(s, r) == IF s = None \/ r = None THEN None ELSE s + r
      known == IF ~IsUnk(m, x.id) /\ x.v = t /\ \E e \in edges[a + 1] : e.b = b /\ e.id = x.id
               THEN plus((CHOOSE e \in edges[a + 1] : e.b = b /\ e.id = x.id).s, ScoreOf(m, w, edges, toks, k + 1, b, 0)) ELSE None
      unk == IF x.id >= 0 /\ IsUnk(m, x.id) /\ x.v = t /\ ~(m.fuse = 1 /\ after = 1)
             THEN plus(IF m.fuse = 1 THEN UnkCover(m, w, edges, a, b)
                       ELSE Top({e.s : e \in {y \in edges[a + 1] : y.b = b /\ IsUnk(m, y.id) /\ ~FallsBack(m, t)}}), ScoreOf(m, w, edges, toks, k + 1, b, 1)) ELSE None
      \* a replaced unknown segment ending at character c
      bytes(e) == LET bt == ByteTokens(m, w, e.a, e.b) IN
                  IF k + Len(bt) - 1 <= Len(toks) /\ SubSeq(toks, k, k + Len(bt) - 1) = bt THEN plus(e.s, ScoreOf(m, w, edges, toks, k + Len(bt), e.b, 0)) ELSE None
      fbs == {bytes(e) : e \in {y \in edges[a + 1] : IsUnk(m, y.id) /\ FallsBack(m, Slice(w, y.a, y.b))}}
  IN IF b = -1 \/ x.o[1] # PosOf(w, a) \/ b <= a THEN None ELSE MaxOf({known, unk} \cup fbs)
Accepts(m, w, r) ==
  LET edges == Edges(m, w)
      best == BestFrom(edges, Len(w), 0)[1]
  IN IF best = None THEN r = [err |-> 1, toks |-> <<>>]
     ELSE r.err = 0 /\ ScoreOf(m, w, edges, r.toks, 1, 0, 0) = best
\* a result to show where one is not accepted
RECURSIVE OnePath(_, _, _, _)
OnePath(edges, best, n, a) == IF a = n THEN <<>> ELSE LET e == CHOOSE x \in edges[a + 1] : best[x.b + 1] # None /\ x.s + best[x.b + 1] = best[a + 1] IN <<e>> \o OnePath(edges, best, n, e.b)
Example(m, w) == LET edges == Edges(m, w)  best == BestFrom(edges, Len(w), 0) IN
  IF best[1] = None THEN [err |-> 1, toks |-> <<>>] ELSE [err |-> 0, toks |-> Render(m, w, OnePath(edges, best, Len(w), 0), -1)]
\* ------------------------------------------------------------------ look-ups
LookRet(m, s) == [ids |-> [i \in 1..Len(s.toks) |-> IF Listed(m, s.toks[i]) THEN <<IdOf(m, s.toks[i])>> ELSE <<>>],
                  toks |-> [i \in 1..Len(s.ids) |-> IF s.ids[i] \in 0..(Len(m.vocab) - 1) THEN <<m.vocab[s.ids[i] + 1].t>> ELSE <<>>], size |-> Len(m.vocab)]
AcceptsStep(m, s, o) == "ret" \in DOMAIN o /\ IF s.a = "tok" THEN Accepts(m, s.w, o.ret) ELSE o.ret = LookRet(m, s)
ShowStep(m, s) == IF s.a = "tok" THEN Example(m, s.w) ELSE LookRet(m, s)
==============================================================================
