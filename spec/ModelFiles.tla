----------------------------- MODULE ModelFiles -----------------------------
(* Models in files. A directory has two places, 0 and 1, each with a         *)
(* vocabulary file v and, for BPE, a merges file m. The content of a file:   *)
(*   none              there is no file                                      *)
(*   block             a directory (how 0), or a file that takes nothing (1) *)
(*   unknown           a save has failed half-way                            *)
(*   text s            WordPiece, WordLevel: a token per line; merges: two   *)
(*                     tokens per line, after an optional line #version      *)
(*   json e            entries [t, id]                                       *)
(*   badjson           not such entries                                      *)
(*   uni m             the configuration of a Unigram model                  *)
(* Models of kind wp and wl are those of WordModels; bpe those of Bpe, and   *)
(* ids, the ids of its tokens; uni those of Unigram, which are not loaded    *)
(* with the options of another, but have all of theirs in the file. A        *)
(* Unigram model makes the directory that is missing.                        *)
EXTENDS Chars
W == INSTANCE WordModels
B == INSTANCE Bpe
\* -------------------------------------------------------------------- lines
RECURSIVE SplitAt(_, _, _)
SplitAt(s, c, cur) == IF s = <<>> THEN <<cur>> ELSE IF Head(s) = c THEN <<cur>> \o SplitAt(Tail(s), c, <<>>) ELSE SplitAt(Tail(s), c, Append(cur, Head(s)))
Lines(s) == LET p == SplitAt(s, 10, <<>>) IN IF p[Len(p)] = <<>> THEN SubSeq(p, 1, Len(p) - 1) ELSE p
RECURSIVE Unlines(_)
Unlines(ls) == IF ls = <<>> THEN <<>> ELSE Head(ls) \o <<10>> \o Unlines(Tail(ls))
\* ---------------------------------------------------------------- by number
RECURSIVE ById(_)
ById(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x.id <= y.id IN <<x>> \o ById(S \ {x})
RECURSIVE ByRank(_)
ByRank(S) == IF S = {} THEN <<>> ELSE LET x == CHOOSE x \in S : \A y \in S : x[4] <= y[4] IN <<x>> \o ByRank(S \ {x})
\* ------------------------------------------------------------------- saving
Entries(kind, m) == IF kind = "bpe" THEN [i \in 1..Len(m.vocab) |-> [t |-> m.vocab[i], id |-> m.ids[i]]] ELSE m.vocab
Sorted(kind, m) == ById(Range(Entries(kind, m)))
Ranked(m) == ByRank(Range(m.merges))
VFile(kind, m) == IF kind = "uni" THEN [k |-> "uni", m |-> m] ELSE IF kind = "bpe" THEN [k |-> "json", e |-> Sorted(kind, m)]
                  ELSE LET x == Sorted(kind, m) IN [k |-> "text", s |-> Unlines([i \in 1..Len(x) |-> x[i].t])]
MFile(m) == LET x == Ranked(m) IN [k |-> "text", s |-> Unlines([i \in 1..Len(x) |-> m.vocab[x[i][1] + 1] \o <<32>> \o m.vocab[x[i][2] + 1]])]
Bare == [k |-> "none"]
Roles(kind) == IF kind = "bpe" THEN {"v", "m"} ELSE {"v"}
NewFile(kind, m, r) == IF r = "v" THEN VFile(kind, m) ELSE MFile(m)
\* a file that takes nothing takes the empty file
Refuses(kind, ms, fs, s, r) == LET f == fs[s.name][r] IN f.k = "block" /\ (f.how = 0 \/ NewFile(kind, ms[s.m], r) # [k |-> "text", s |-> <<>>])
SaveErr(kind, ms, fs, s) == B2I(IF s.miss = 1 THEN kind # "uni" ELSE \E r \in Roles(kind) : Refuses(kind, ms, fs, s, r))
Saved(kind, ms, fs, s) ==
  IF s.miss = 1 THEN fs
  ELSE LET err == SaveErr(kind, ms, fs, s) IN
       [fs EXCEPT ![s.name] = [r \in {"v", "m"} |-> IF r \notin Roles(kind) \/ @[r].k = "block" THEN @[r]
                                                    ELSE IF err = 1 THEN [k |-> "unknown"]
                                                    ELSE NewFile(kind, ms[s.m], r)]]
\* what a model shows of itself
ShowWord(kind, m, words) ==
  [err |-> 0, vocab |-> Sorted(kind, m), merges |-> <<>>, toks |-> [i \in 1..Len(words) |-> IF kind = "wp" THEN W!WordPiece(m, words[i]) ELSE W!WordLevel(m, words[i])]]
Outcome(m, w) == LET r == CHOOSE x \in B!Tokenized(m, w) : TRUE IN [r EXCEPT !.toks = [j \in 1..Len(@) |-> [@[j] EXCEPT !.id = m.ids[@ + 1]]]]
ShowBpe(m, words) ==
  LET x == Ranked(m) IN
  [err |-> 0, vocab |-> Sorted("bpe", m), merges |-> [i \in 1..Len(x) |-> [j \in 1..3 |-> m.vocab[x[i][j] + 1]]],
   toks |-> [i \in 1..Len(words) |-> Outcome(m, words[i])]]
\* what the file of a Unigram model holds; the last says that the model made of it behaves as one built of these
ShowUni(m) == [err |-> 0, vocab |-> [i \in 1..Len(m.vocab) |-> [t |-> m.vocab[i].t, id |-> i - 1]], merges |-> m.unk,
               toks |-> [i \in 1..Len(m.vocab) |-> m.vocab[i].s] \o <<m.fb, m.fuse, 1>>]
Show(kind, m, words) == IF kind = "uni" THEN ShowUni(m) ELSE IF kind = "bpe" THEN ShowBpe(m, words) ELSE ShowWord(kind, m, words)
NoModel == [err |-> 1, vocab |-> <<>>, merges |-> <<>>, toks |-> <<>>]
\* ------------------------------------------------------------------ loading
\* with the options of model o
LoadWord(kind, f, o, words) ==
  IF f.k # "text" THEN NoModel
  ELSE LET l == Lines(f.s) IN ShowWord(kind, [o EXCEPT !.vocab = [i \in 1..Len(l) |-> [t |-> l[i], id |-> i - 1]]], words)
Version == <<35, 118, 101, 114, 115, 105, 111, 110>>
Place(e, t) == LET S == {i \in 1..Len(e) : e[i].t = t} IN IF S = {} THEN -1 ELSE MinOf(S) - 1
RECURSIVE Merges(_, _, _, _)
Merges(e, pre, ls, n) ==     \* <<merges>>, or <<>> if a line is wrong
  IF ls = <<>> THEN << <<>> >>
  ELSE LET p == SplitAt(Head(ls), 32, <<>>) IN
       IF Len(p) # 2 THEN <<>>
       ELSE LET a == Place(e, p[1])  b == Place(e, p[2])
                c == Place(e, p[1] \o (IF IsPrefixOf(pre, p[2]) THEN Drop(p[2], Len(pre)) ELSE p[2]))
                r == Merges(e, pre, Tail(ls), n + 1)
            IN IF -1 \in {a, b, c} \/ r = <<>> THEN <<>> ELSE << << <<a, b, c, n>> >> \o r[1] >>
MergeLines(s) == LET l == Lines(s) IN IF l # <<>> /\ IsPrefixOf(Version, l[1]) THEN Tail(l) ELSE l
LoadBpe(v, f, o, words) ==
  IF v.k # "json" \/ f.k # "text" THEN NoModel
  ELSE LET r == Merges(v.e, o.pre, MergeLines(f.s), 0) IN
       IF r = <<>> THEN NoModel
       ELSE ShowBpe([o EXCEPT !.vocab = [i \in 1..Len(v.e) |-> v.e[i].t], !.ids = [i \in 1..Len(v.e) |-> v.e[i].id], !.merges = r[1]], words)
LoadUni(f) == IF f.k = "uni" THEN ShowUni(f.m) ELSE NoModel
Load(kind, ms, fs, s, words) == IF kind = "uni" THEN LoadUni(fs[s.name]["v"]) ELSE IF kind = "bpe" THEN LoadBpe(fs[s.name]["v"], fs[s.name]["m"], ms[s.m], words) ELSE LoadWord(kind, fs[s.name]["v"], ms[s.m], words)
\* -------------------------------------------------------------------- steps
Empty == [n \in 0..1 |-> [r \in {"v", "m"} |-> Bare]]
FRet(c, fs, s) == CASE s.a = "save" -> [err |-> SaveErr(c.kind, c.models, fs, s)]
                    [] s.a = "load" -> Load(c.kind, c.models, fs, s, c.words)
                    [] OTHER -> [err |-> 0]
FNext(c, fs, s) == CASE s.a = "save" -> Saved(c.kind, c.models, fs, s)
                     [] s.a = "put" -> [fs EXCEPT ![s.name][s.f] = s.c]
                     [] s.a = "rm" -> [fs EXCEPT ![s.name][s.f] = Bare]
                     [] s.a = "block" -> [fs EXCEPT ![s.name][s.f] = [k |-> "block", how |-> s.how]]
                     [] OTHER -> fs
\* files which can be looked at
Readable(c, fs, s) == s.a = "load" => \A r \in Roles(c.kind) : LET f == fs[s.name][r] IN f.k # "unknown" /\ (f.k = "block" => f.how = 0)
=============================================================================
