----------------------------- MODULE WordModels -----------------------------
(* The models that look words up: WordPiece and WordLevel. A model has       *)
(*   vocab  <<[t, id]>>, all t and all id different                          *)
(*   unk    text of the unknown token                                        *)
(*   pre    prefix of continuing pieces, max  most characters of a word      *)
(* Offsets are in bytes. What is returned is [err, toks].                    *)
EXTENDS Chars
Token(id, v, a, b) == [id |-> id, v |-> v, o |-> <<a, b>>]
Entry(vocab, t) == {i \in 1..Len(vocab) : vocab[i].t = t}
Has(vocab, t) == Entry(vocab, t) # {}
IdIn(vocab, t) == vocab[CHOOSE i \in Entry(vocab, t) : TRUE].id
Fine(toks) == [err |-> 0, toks |-> toks]
Failed == [err |-> 1, toks |-> <<>>]
\* ---------------------------------------------------------------- WordPiece
PieceAt(m, w, i, j) == (IF i > 0 THEN m.pre ELSE <<>>) \o Slice(w, i, j)
\* the longest piece at i, or i itself
RECURSIVE LongestFrom(_, _, _, _)
LongestFrom(m, w, i, j) == IF j = i \/ Has(m.vocab, PieceAt(m, w, i, j)) THEN j ELSE LongestFrom(m, w, i, j - 1)
RECURSIVE Greedy(_, _, _)
Greedy(m, w, i) ==        \* <<pieces>>, or <<>> if some position has none
  IF i = Len(w) THEN << <<>> >>
  ELSE LET j == LongestFrom(m, w, i, Len(w)) IN
       IF j = i THEN <<>>
       ELSE LET r == Greedy(m, w, j) IN
            IF r = <<>> THEN <<>>
            ELSE LET f == PieceAt(m, w, i, j) IN << <<Token(IdIn(m.vocab, f), f, PosOf(w, i), PosOf(w, j))>> \o r[1] >>
WholeUnknown(m, w) == IF Has(m.vocab, m.unk) THEN Fine(<<Token(IdIn(m.vocab, m.unk), m.unk, 0, Bytes(w))>>) ELSE Failed
WordPiece(m, w) ==
  IF Len(w) > m.max THEN WholeUnknown(m, w)
  ELSE LET r == Greedy(m, w, 0) IN IF r = <<>> THEN WholeUnknown(m, w) ELSE Fine(r[1])
\* ---------------------------------------------------------------- WordLevel
\* the value of an unknown token may be the word or the text of the unknown
\* token (the harness writes the word for both)
WordLevel(m, w) ==
  IF Has(m.vocab, w) THEN Fine(<<Token(IdIn(m.vocab, w), w, 0, Bytes(w))>>)
  ELSE IF Has(m.vocab, m.unk) THEN Fine(<<Token(IdIn(m.vocab, m.unk), w, 0, Bytes(w))>>)
  ELSE Failed
\* naming the unknown token adds it to a vocabulary that does not have it
RECURSIVE FreeId(_, _)
FreeId(vocab, id) == IF \E i \in 1..Len(vocab) : vocab[i].id = id THEN FreeId(vocab, id + 1) ELSE id
WithUnk(vocab, unk) == IF Has(vocab, unk) THEN vocab ELSE Append(vocab, [t |-> unk, id |-> FreeId(vocab, Len(vocab))])
\* ------------------------------------------------------------------ look-ups
Ids(m, ts) == [i \in 1..Len(ts) |-> IF Has(m.vocab, ts[i]) THEN <<IdIn(m.vocab, ts[i])>> ELSE <<>>]
Texts(m, ids) == [i \in 1..Len(ids) |-> LET e == {j \in 1..Len(m.vocab) : m.vocab[j].id = ids[i]} IN IF e = {} THEN <<>> ELSE <<m.vocab[CHOOSE j \in e : TRUE].t>>]
\* a case: kind wp or wl, how it is made, and what is asked, in this order
Made(c) == IF c.kind = "wl" /\ c.addunk = 1 THEN [c.m EXCEPT !.vocab = WithUnk(c.m.vocab, c.m.unk)] ELSE c.m
RetOf(c, m, s) ==
  CASE s.a = "tok" -> IF c.kind = "wp" THEN WordPiece(m, s.w) ELSE WordLevel(m, s.w)
    [] s.a = "look" -> [ids |-> Ids(m, s.toks), toks |-> Texts(m, s.ids), size |-> Len(m.vocab)]
=============================================================================
