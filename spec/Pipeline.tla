------------------------------ MODULE Pipeline ------------------------------
(* The tokenizer as a whole: the added vocabulary, the normalizer, the       *)
(* splitter, the model, truncation, post-processing and padding, put         *)
(* together; and decoding. A tokenizer is                                    *)
(*   av     the added vocabulary, with the normalizer and the splitter       *)
(*   m      the model, k its kind: wp, wl, bpe, uni, gram                    *)
(*   post, trunc, pad, dec   each <<>> or <<its parameters>>                 *)
(* A call changes none of these; only the setters do.                        *)
EXTENDS AddedVocab
E == INSTANCE Encoding
W == INSTANCE WordModels
B == INSTANCE Bpe
U == INSTANCE Unigram
D == INSTANCE Decoders
------------------------------------------------------------------ \* models
VocabOf(m) == IF m.k \in {"bpe", "uni"} THEN [i \in 1..Len(m.vocab) |-> [t |-> IF m.k = "bpe" THEN m.vocab[i] ELSE m.vocab[i].t, id |-> i - 1]] ELSE m.vocab
\* of several best cuttings any is right: then there is no prediction
RECURSIVE Paths(_, _, _, _)
Paths(edges, best, n, a) ==
  IF a = n THEN 1 ELSE SumSeq([i \in 1..n |-> IF i > a /\ \E e \in edges[a + 1] : e.b = i /\ best[i + 1] # U!None /\ e.s + best[i + 1] = best[a + 1]
                                               THEN Paths(edges, best, n, i) ELSE 0])
Sure(m, s) == IF m.k # "uni" THEN TRUE
              ELSE LET edges == U!Edges(m, s)  best == U!BestFrom(edges, Len(s), 0) IN best[1] = U!None \/ Paths(edges, best, Len(s), 0) = 1
\* the value of a token of unknown text: the text, or the unknown token if bytes are looked for
UnkNamed(m, r) == [r EXCEPT !.toks = [i \in 1..Len(@) |-> IF m.fb = 1 /\ m.unk # <<>> /\ @[i].id = m.unk[1] THEN [@[i] EXCEPT !.v = m.vocab[m.unk[1] + 1].t] ELSE @[i]]]
ModelOn(m, s) ==
  CASE m.k = "wp" -> W!WordPiece(m, s)
    [] m.k = "wl" -> W!WordLevel(m, s)
    [] m.k = "bpe" -> (CHOOSE r \in B!Tokenized(m, s) : TRUE)
    [] m.k = "uni" -> UnkNamed(m, U!Example(m, s))
    [] m.k = "gram" -> [err |-> 0, toks |-> Grams(s, 0, m.w, 0)]
-------------------------------------------------------------- \* a tokenizer
Assemble(c) ==
  LET av == [NewVocab(VocabOf(c.m), 0) EXCEPT !.norm = c.norm, !.pre = c.pre]
      RECURSIVE Go(_, _)
      Go(a, xs) == IF xs = <<>> THEN a ELSE Go(Add(a, Head(xs).toks, Head(xs).special), Tail(xs))
  IN [av |-> Go(av, c.added), m |-> c.m, post |-> c.post, trunc |-> c.trunc, pad |-> c.pad, dec |-> c.dec]
---------------------------------------------------------------- \* encoding
\* the pieces sp of a text x with their tokens, as an encoding
EncFrom(x, sp, toks, ty, word, chars) ==
  LET e == EncOf([x EXCEPT !.sp = [i \in 1..Len(sp) |-> [sp[i] EXCEPT !.tk = 1, !.toks = toks[i]]]], ty, word, chars)
  IN E!Enc([i \in 1..Len(e.ids) |-> [id |-> e.ids[i], ty |-> ty, tk |-> e.tok[i], o1 |-> e.off[i][1], o2 |-> e.off[i][2], w |-> e.words[i], sp |-> 0, at |-> 1]], <<>>, <<>>)
\* a text as an encoding of sequence type ty and word index word: [e, err, sure]
TextEnc(tk, text, ty, word, chars) ==
  LET x == ExtractAndNormalize(tk.av, text)
      sp == TLCEval(IF tk.av.pre = <<>> THEN x.sp ELSE PreTokenize(tk.av.pre[1], x.sp))
      r == TLCEval([i \in 1..Len(sp) |-> IF sp[i].tk = 1 THEN [err |-> 0, toks |-> sp[i].toks] ELSE ModelOn(tk.m, Text(sp[i].n))])
  IN [e |-> EncFrom(x, sp, [i \in 1..Len(sp) |-> r[i].toks], ty, word, chars),
      err |-> MaxOf({0} \cup {r[i].err : i \in 1..Len(r)}),
      sure |-> \A i \in 1..Len(sp) : sp[i].tk = 1 \/ Sure(tk.m, Text(sp[i].n))]
\* a sequence: [k: raw, s] a text, or [k: words, s] its words
SeqEnc(tk, q, ty, chars) ==
  IF q.k = "raw" THEN TextEnc(tk, q.s, ty, -1, chars)
  ELSE LET r == TLCEval([i \in 1..Len(q.s) |-> TextEnc(tk, q.s[i], ty, i - 1, chars)])
       IN [e |-> E!MergeAll(<<E!Empty>> \o [i \in 1..Len(r) |-> r[i].e], 0), err |-> MaxOf({0} \cup {r[i].err : i \in 1..Len(r)}), sure |-> \A i \in 1..Len(r) : r[i].sure]
AddedTo(tk, hasB) == IF tk.post = <<>> THEN 0 ELSE E!Added(tk.post[1], hasB)
Limit(tk, hasB, add) == tk.trunc[1].max - (IF add = 1 THEN AddedTo(tk, hasB) ELSE 0)
\* limits that leave no room
NoRoom(tk, a, b, hasB, add) == tk.trunc # <<>> /\ ~E!TruncPairPre(a, b, hasB, Limit(tk, hasB, add), tk.trunc[1].strat)
PostProcess(tk, a, b, hasB, add) ==
  LET t == IF tk.trunc = <<>> THEN <<a, b>> ELSE E!TruncPair(a, b, hasB, Limit(tk, hasB, add), tk.trunc[1].strat, tk.trunc[1].stride)
      p == IF tk.post = <<>> THEN [k |-> "none"] ELSE tk.post[1]
      x == E!Process(p, t[1], t[2], hasB, add)
  IN IF tk.pad = <<>> THEN x ELSE E!PadBatch(<<x>>, tk.pad[1].target, tk.pad[1].p)[1]
\* [e: <<>> or <<the encoding>>, any: there is no prediction]. An input is a
\* row of one or two sequences
Encode(tk, in, add, chars) ==
  LET hasB == Len(in) = 2
      a == TLCEval(SeqEnc(tk, in[1], 0, chars))
      b == TLCEval(IF hasB THEN SeqEnc(tk, in[2], 1, chars) ELSE [e |-> E!Empty, err |-> 0, sure |-> TRUE])
  IN IF a.err = 1 \/ b.err = 1 THEN [e |-> <<>>, any |-> 0]
     ELSE IF ~a.sure \/ ~b.sure \/ NoRoom(tk, a.e, b.e, hasB, add) THEN [e |-> <<>>, any |-> 1]
     ELSE [e |-> <<PostProcess(tk, a.e, b.e, hasB, add)>>, any |-> 0]
Rets(x) == IF x.any = 1 THEN [any |-> 1] ELSE IF x.e = <<>> THEN [err |-> 1] ELSE [err |-> 0, e |-> x.e[1]]
Batch(tk, ins, add) ==
  LET x == TLCEval([i \in 1..Len(ins) |-> Encode(tk, ins[i], add, 0)])
      es == [i \in 1..Len(ins) |-> x[i].e[1]]
  IN IF \E i \in 1..Len(ins) : x[i].any = 1 THEN [any |-> 1]
     ELSE IF \E i \in 1..Len(ins) : x[i].e = <<>> THEN [err |-> 1]
     ELSE [err |-> 0, es |-> IF tk.pad = <<>> THEN es ELSE E!PadBatch(es, tk.pad[1].target, tk.pad[1].p)]
---------------------------------------------------------------- \* decoding
Decode(tk, ids, skip) == LET ts == Kept(tk.av, ids, skip) IN IF tk.dec = <<>> THEN JoinSp(ts) ELSE D!Decoded(tk.dec[1], ts)
------------------------------------------------------------------- \* steps
TokensOf(x) == IF x.any = 1 THEN [any |-> 1] ELSE IF x.e = <<>> THEN [err |-> 1] ELSE [err |-> 0, toks |-> [i \in 1..Len(x.e[1].t) |-> x.e[1].t[i].tk]]
PipeRet(tk, s) ==
  CASE s.a = "enc" -> Rets(Encode(tk, s.in, s.add, s.chars))
    [] s.a = "both" -> [b |-> Rets(Encode(tk, s.in, s.add, 0)), c |-> Rets(Encode(tk, s.in, s.add, 1))]
    [] s.a = "tok" -> TokensOf(Encode(tk, s.in, s.add, 0))
    [] s.a = "batch" -> Batch(tk, s.ins, s.add)
    [] s.a = "dec" -> Decode(tk, s.ids, s.skip)
    [] s.a = "decbatch" -> [i \in 1..Len(s.idss) |-> Decode(tk, s.idss[i], s.skip)]
    [] s.a = "list" -> Listing(tk.av)
    [] s.a = "look" -> [ids |-> [i \in 1..Len(s.toks) |-> IdOf(tk.av, s.toks[i])], toks |-> [i \in 1..Len(s.ids) |-> TokenOf(tk.av, s.ids[i])]]
    [] s.a = "add" -> Len(Add(tk.av, s.toks, s.special).added) - Len(tk.av.added)
    [] OTHER -> 0
PipeNext(tk, s) ==
  CASE s.a = "add" -> [tk EXCEPT !.av = Add(@, s.toks, s.special)]
    [] s.a = "model" -> [tk EXCEPT !.m = s.p, !.av.model = VocabOf(s.p)]
    [] s.a = "norm" -> [tk EXCEPT !.av.norm = s.p]
    [] s.a = "pre" -> [tk EXCEPT !.av.pre = s.p]
    [] s.a = "post" -> [tk EXCEPT !.post = s.p]
    [] s.a = "trunc" -> [tk EXCEPT !.trunc = s.p]
    [] s.a = "pad" -> [tk EXCEPT !.pad = s.p]
    [] s.a = "decoder" -> [tk EXCEPT !.dec = s.p]
    [] OTHER -> tk
\* where there is no prediction anything is accepted but a crash
Agrees(exp, ret) == IF DOMAIN exp = {"any"} THEN TRUE ELSE exp = ret
AgreesStep(s, exp, o) ==
  IF "ret" \notin DOMAIN o THEN FALSE
  ELSE IF s.a = "both" THEN DOMAIN o.ret = {"b", "c"} /\ Agrees(exp.b, o.ret.b) /\ Agrees(exp.c, o.ret.c)
  ELSE IF s.a \in {"enc", "tok", "batch"} THEN Agrees(exp, o.ret)
  ELSE exp = o.ret
=============================================================================
