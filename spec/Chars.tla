------------------------------- MODULE Chars -------------------------------
(* Characters. A text is a sequence of code points; a byte that is not valid *)
(* UTF-8 is written as its negated value and counts as one character.        *)
(* The table holds facts of Unicode, taken from the Go standard library and  *)
(* golang.org/x/text, which are trusted.                                     *)
EXTENDS Util, Json, IOUtils

CharRows == ndJsonDeserialize("CharTable.ndjson")
\* rows by code point
CharTable == TLCEval([c \in {CharRows[i].c : i \in 1..Len(CharRows)} |->
               LET i == CHOOSE j \in 1..Len(CharRows) : CharRows[j].c = c IN
               [CharRows[i] EXCEPT !.comp = [y \in {@[j][1] : j \in 1..Len(@)} |-> @[CHOOSE j \in 1..Len(@) : @[j][1] = y][2]]]])
\* read once, kept in a TLC register
ASSUME TLCSet(42, CharTable)
CT == TLCGet(42)
Known == DOMAIN CT

Bad == 65533
Rune(c) == IF c < 0 THEN Bad ELSE c   \* what Go's []rune sees
Width(c) == IF c < 0 THEN 1 ELSE IF c < 128 THEN 1 ELSE IF c < 2048 THEN 2 ELSE IF c < 65536 THEN 3 ELSE 4
RECURSIVE BytesUpTo(_, _)
BytesUpTo(s, i) == IF i <= 0 THEN 0 ELSE Width(s[i]) + BytesUpTo(s, i - 1)
Bytes(s) == BytesUpTo(s, Len(s))
\* byte position of the i-th character (0-based)
PosOf(s, i) == BytesUpTo(s, Min2(i, Len(s)))
Boundaries(s) == {PosOf(s, i) : i \in 0..Len(s)}
\* the number of characters before byte position p (a boundary)
RECURSIVE CharFrom(_, _, _, _)
CharFrom(s, p, i, at) == IF at = p THEN i ELSE CharFrom(s, p, i + 1, at + Width(s[i + 1]))
CharAt(s, p) == CharFrom(s, p, 0, 0)

Row(c) == CT[Rune(c)]
Lower(c) == Row(c).low
Upper(c) == Row(c).up
IsSpace(c) == Row(c).sp = 1
IsMn(c) == Row(c).mn = 1
IsPunct(c) == Row(c).p = 1
IsNum(c) == Row(c).num = 1
IsDigit(c) == Row(c).dig = 1
IsLetter(c) == Row(c).let = 1
IsWord(c) == Row(c).w = 1     \* letters, marks, decimal and letter numbers, connectors, joiners
\* BERT's classes, as documented
BertSpace(c) == IsSpace(c)
BertControl(c) == c \notin {9, 10, 13} /\ Row(c).ctl = 1
InRange(c, a, b) == a <= c /\ c <= b
BertPunct(c) == Rune(c) \in (33..47) \cup (58..64) \cup (91..96) \cup (123..126) \/ IsPunct(c)
Chinese(c) == \/ InRange(c, 19968, 40959) \/ InRange(c, 13312, 19903) \/ InRange(c, 63744, 64255)
              \/ InRange(c, 131072, 173791) \/ InRange(c, 173824, 177983) \/ InRange(c, 177984, 178207)
              \/ InRange(c, 178208, 183983) \/ InRange(c, 194560, 195103)

-------------------------------------------------- \* Unicode normal forms
\* forms: 1 NFC, 2 NFD, 3 NFKC, 4 NFKD
Ccc(c) == Row(c).ccc
StartsSegment(f, c) == Row(c).bd[f] = 1
RECURSIVE Decomposed(_, _)
Decomposed(f, s) == IF s = <<>> THEN <<>>
                    ELSE (IF f > 2 THEN Row(Head(s)).kdec ELSE Row(Head(s)).dec) \o Decomposed(f, Tail(s))
\* canonical ordering: stable sort of each run of non-starters by class
RECURSIVE Insert(_, _)
Insert(s, c) == IF s = <<>> \/ Ccc(c) = 0 \/ Ccc(s[Len(s)]) = 0 \/ Ccc(s[Len(s)]) <= Ccc(c) THEN Append(s, c)
                ELSE Append(Insert(SubSeq(s, 1, Len(s) - 1), c), s[Len(s)])
RECURSIVE Ordered(_)
Ordered(s) == IF s = <<>> THEN <<>> ELSE Insert(Ordered(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
\* canonical composition; st is the position of the last starter in out, 0 if none
Compose2(x, y) == IF y \in DOMAIN Row(x).comp THEN Row(x).comp[y] ELSE 0
RECURSIVE Composed(_, _, _)
Composed(s, out, st) ==
  IF s = <<>> THEN out
  ELSE LET c == Head(s)
           blocked == st = 0 \/ (st < Len(out) /\ (Ccc(out[Len(out)]) >= Ccc(c) \/ Ccc(out[Len(out)]) = 0))
           x == IF blocked THEN 0 ELSE Compose2(out[st], c)
       IN IF x # 0 THEN Composed(Tail(s), [out EXCEPT ![st] = x], st)
          ELSE Composed(Tail(s), Append(out, c), IF Ccc(c) = 0 THEN Len(out) + 1 ELSE st)
Form(f, s) == LET d == Ordered(Decomposed(f, s)) IN IF f \in {1, 3} THEN Composed(d, <<>>, 0) ELSE d
\* lengths of the segments of a text: a starter and what may combine with it
RECURSIVE Segments(_, _, _)
Segments(f, s, n) ==
  IF s = <<>> THEN (IF n = 0 THEN <<>> ELSE <<n>>)
  ELSE IF n > 0 /\ StartsSegment(f, Head(s)) THEN <<n>> \o Segments(f, Tail(s), 1)
  ELSE Segments(f, Tail(s), n + 1)

------------------------------------------------- \* grapheme clusters
GClass(c) == Row(c).g
\* g: the classes of the cluster so far, d: the class of the next character
RECURSIVE AfterPicture(_)
AfterPicture(g) == g # <<>> /\ (g[Len(g)] = "EP" \/ (g[Len(g)] = "EX" /\ AfterPicture(SubSeq(g, 1, Len(g) - 1))))
Joins(g, d) ==
  LET q == g[Len(g)]
      rest == SubSeq(g, 1, Len(g) - 1) IN
  CASE q = "CR" -> d = "LF"
    [] q \in {"LF", "CN"} -> FALSE
    [] d \in {"CR", "LF", "CN"} -> FALSE
    [] d \in {"EX", "ZWJ", "SM"} -> TRUE
    [] q = "PP" -> TRUE
    [] q = "L" -> d \in {"L", "V", "LV", "LVT"}
    [] q \in {"LV", "V"} -> d \in {"V", "T"}
    [] q \in {"LVT", "T"} -> d = "T"
    [] q = "ZWJ" -> d = "EP" /\ AfterPicture(rest)
    [] q = "RI" -> d = "RI" /\ Cardinality({i \in 1..Len(g) : g[i] = "RI"}) % 2 = 1
    [] OTHER -> FALSE
\* the clusters of a text
RECURSIVE Clusters(_, _)
Clusters(s, cur) ==
  IF s = <<>> THEN (IF cur = <<>> THEN <<>> ELSE <<cur>>)
  ELSE IF cur = <<>> \/ Joins([i \in 1..Len(cur) |-> GClass(cur[i])], GClass(Head(s)))
       THEN Clusters(Tail(s), Append(cur, Head(s)))
       ELSE <<cur>> \o Clusters(Tail(s), <<Head(s)>>)
Graphemes(s) == Clusters(s, <<>>)
============================================================================
