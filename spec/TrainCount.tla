----------------------------- MODULE TrainCount -----------------------------
(* Training a tokenizer from files: workers each read the lines that start   *)
(* in their piece of a file, cut them into pieces of text and hand over how  *)
(* often each occurs; the trainer gets the sums.                             *)
(* A case: chunk  bytes of a file that one worker reads                      *)
(*         norm, pre   <<>> or <<normalizer>>, <<pre-tokenizer>>             *)
(*         bad    texts containing this character are refused by them        *)
(*         vocab  vocabulary of the model before                             *)
(*         runs   trainings: files <<[miss, c, rep]>> (content c, rep times; *)
(*                if rep > 1, it ends with a line break), special tokens,    *)
(*                vocabulary of the trained model                            *)
EXTENDS AddedVocab
RECURSIVE LessText(_, _)
LessText(s, t) == IF t = <<>> THEN FALSE ELSE IF s = <<>> THEN TRUE
                  ELSE IF s[1] # t[1] THEN s[1] < t[1] ELSE LessText(Tail(s), Tail(t))
LF == 10  CR == 13
\* ------------------------------------------------------------------ the lines
DropCR(s) == IF s # <<>> /\ s[Len(s)] = CR THEN SubSeq(s, 1, Len(s) - 1) ELSE s
RECURSIVE LinesFrom(_, _, _, _)
LinesFrom(s, i, from, at) ==     \* the line being read began with character from, at byte at
  IF i > Len(s) THEN IF from > Len(s) THEN <<>> ELSE <<[at |-> at, t |-> DropCR(SubSeq(s, from, Len(s)))]>>
  ELSE IF s[i] = LF THEN <<[at |-> at, t |-> DropCR(SubSeq(s, from, i - 1))]>> \o LinesFrom(s, i + 1, i + 1, at + Bytes(SubSeq(s, from, i)))
  ELSE LinesFrom(s, i + 1, from, at)
Lines(s) == LinesFrom(s, 1, 1, 0)
\* the workers of a file and the lines of each
Workers(f, chunk) ==
  LET ls == Lines(f.c)  n == (Bytes(f.c) + chunk - 1) \div chunk IN
  [k \in 1..n |-> SelectSeq(ls, LAMBDA l : l.at >= (k - 1) * chunk /\ l.at < k * chunk)]
\* ----------------------------------------------------------------- the pieces
NormOf(c, t) == IF c.norm = <<>> THEN From(t) ELSE Normalize(c.norm[1], From(t))
PiecesOf(c, t) == LET sp == PreTokenize(c.pre[1], Start(NormOf(c, t)).sp) IN [i \in 1..Len(sp) |-> Text(sp[i].n)]
Refused(c, t) == c.pre = <<>> \/ (c.bad # <<>> /\ c.bad[1] \in Range(Text(NormOf(c, t))))
\* ----------------------------------------------------------------- the counts
Zero == [w \in {} |-> 0]
Get(d, w) == IF w \in DOMAIN d THEN d[w] ELSE 0
RECURSIVE AddWords(_, _, _)
AddWords(d, ws, n) == IF ws = <<>> THEN d ELSE LET w == Head(ws) IN
  AddWords([x \in DOMAIN d \cup {w} |-> IF x = w THEN Get(d, w) + n ELSE d[x]], Tail(ws), n)
RECURSIVE AnyOrder(_)
AnyOrder(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE y \in S : TRUE IN <<x>> \o AnyOrder(S \ {x})
InOrder(d) == LET ws == SortSeq(AnyOrder(DOMAIN d), LessText) IN [i \in 1..Len(ws) |-> [w |-> ws[i], n |-> d[ws[i]]]]
\* all lines of a list of files, with how often each is there
AllLines(fs) == Flatten([i \in 1..Len(fs) |-> LET ls == Lines(fs[i].c) IN [j \in 1..Len(ls) |-> [t |-> ls[j].t, n |-> fs[i].rep]]])
RECURSIVE CountLines(_, _, _)
CountLines(c, ls, d) == IF ls = <<>> THEN d ELSE CountLines(c, Tail(ls), AddWords(d, PiecesOf(c, Head(ls).t), Head(ls).n))
Fails(c, run) == \/ \E i \in 1..Len(run.files) : run.files[i].miss = 1
                 \/ \E i \in 1..Len(AllLines(run.files)) : Refused(c, AllLines(run.files)[i].t)
\* ------------------------------------------------------------- the tokenizer
\* model: which training made it (0: it was there before); av: its vocabulary and the added one
Fresh0(c) == [model |-> 0, av |-> NewVocab(c.vocab, 1)]
Special(t) == [c |-> t, nz |-> 0, sw |-> 0, ls |-> 0, rs |-> 0]
Trained(tk, run, i) == [model |-> i, av |-> Add([tk.av EXCEPT !.model = run.vocab], Map(run.special, Special), 1)]
Ret(tk, err, counts) == [err |-> err, calls |-> 1 - err, counts |-> IF err = 1 THEN <<>> ELSE InOrder(counts), model |-> tk.model, list |-> Listing(tk.av)]
\* the whole training at once
TrainRun(c, tk, run, i) ==
  IF Fails(c, run) THEN [tk |-> tk, ret |-> Ret(tk, 1, Zero)]
  ELSE LET n == Trained(tk, run, i) IN [tk |-> n, ret |-> Ret(n, 0, CountLines(c, AllLines(run.files), Zero))]
=============================================================================
