------------------------------ MODULE Decoders ------------------------------
(* Decoders turn tokens into a text. A decoder is a record k ...:            *)
(*   bpe s          the suffix s of tokens is a space, but for the last one  *)
(*   wordpiece s cl tokens continue a word if they begin with s, otherwise   *)
(*                  a space is put before; cl: spaces before punctuation and *)
(*                  abbreviations are removed                                *)
(*   bytes          tokens <0x..> are bytes                                  *)
(*   ctc s w cl     a token is heard once however often repeated, s is       *)
(*                  silence; cl: w is a space, and as above                  *)
(*   meta s pre     the character s is a space; pre: but not in the first    *)
(*   fuse           the tokens are made one                                  *)
(*   strip s a z    up to a and z characters s at both ends are removed      *)
(*   replace p w    what matches the pattern p is replaced by w              *)
(*   bytelevel      every character stands for a byte                        *)
(*   seq ds         one after the other                                      *)
(* Chain gives the list of texts whose concatenation is the decoded text.    *)
EXTENDS PreTok
\* ------------------------------------------------------------ bytes to text
\* the length of the valid UTF-8 character at the front of b, or 0
Cont(b, i) == i <= Len(b) /\ b[i] \in 128..191
Utf8Len(b) ==
  LET x == b[1] IN
  IF x < 128 THEN 1
  ELSE IF x \in 194..223 /\ Cont(b, 2) THEN 2
  ELSE IF x \in 224..239 /\ Cont(b, 2) /\ Cont(b, 3) /\ (x = 224 => b[2] >= 160) /\ (x = 237 => b[2] < 160) THEN 3
  ELSE IF x \in 240..244 /\ Cont(b, 2) /\ Cont(b, 3) /\ Cont(b, 4) /\ (x = 240 => b[2] >= 144) /\ (x = 244 => b[2] < 144) THEN 4
  ELSE 0
CharOf(b, n) == IF n = 1 THEN b[1] ELSE IF n = 2 THEN (b[1] - 192) * 64 + b[2] - 128
                ELSE IF n = 3 THEN (b[1] - 224) * 4096 + (b[2] - 128) * 64 + b[3] - 128
                ELSE (b[1] - 240) * 262144 + (b[2] - 128) * 4096 + (b[3] - 128) * 64 + b[4] - 128
RECURSIVE FromBytes(_)
FromBytes(b) == IF b = <<>> THEN <<>>
                ELSE LET n == Utf8Len(b) IN
                     IF n = 0 THEN <<-b[1]>> \o FromBytes(Tail(b)) ELSE <<CharOf(b, n)>> \o FromBytes(Drop(b, n))
\* bytes that have come together may make a character
Canon(s) == IF \E i \in 1..Len(s) : s[i] < 0 THEN FromBytes(BytesOf(s)) ELSE s
CanonAll(ss) == [i \in 1..Len(ss) |-> Canon(ss[i])]
\* ------------------------------------------------------------- replacements
RECURSIVE ReplaceStr(_, _, _)
ReplaceStr(s, x, y) == IF s = <<>> THEN <<>>
                       ELSE IF IsPrefixOf(x, s) THEN y \o ReplaceStr(Drop(s, Len(x)), x, y) ELSE <<Head(s)>> \o ReplaceStr(Tail(s), x, y)
Sp == 32  Ap == 39
Untidy == << <<Sp, 46>>, <<Sp, 63>>, <<Sp, 33>>, <<Sp, 44>>, <<Sp, Ap, Sp>>, <<Sp, 110, Ap, 116>>, <<Sp, Ap, 109>>,
             <<Sp, 100, 111, Sp, 110, 111, 116>>, <<Sp, Ap, 115>>, <<Sp, Ap, 118, 101>>, <<Sp, Ap, 114, 101>> >>
Tidied == << <<46>>, <<63>>, <<33>>, <<44>>, <<Ap>>, <<110, Ap, 116>>, <<Ap, 109>>,
           <<Sp, 100, 111, 110, Ap, 116>>, <<Ap, 115>>, <<Ap, 118, 101>>, <<Ap, 114, 101>> >>
RECURSIVE TidyFrom(_, _)
TidyFrom(s, i) == IF i > Len(Untidy) THEN s ELSE TidyFrom(ReplaceStr(s, Untidy[i], Tidied[i]), i + 1)
Tidy(s) == TidyFrom(s, 1)
\* ------------------------------------------------------------ byte fallback
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE IF c \in 97..102 THEN c - 87 ELSE -1
IsByteTok(s) == Len(s) = 6 /\ SubSeq(s, 1, 3) = <<60, 48, 120>> /\ s[6] = 62 /\ HexVal(s[4]) >= 0 /\ HexVal(s[5]) >= 0
ByteIn(s) == 16 * HexVal(s[4]) + HexVal(s[5])
\* a run of bytes: their text, or a replacement character for each
RunText(b) == IF b = <<>> THEN <<>> ELSE LET s == FromBytes(b) IN IF \E i \in 1..Len(s) : s[i] < 0 THEN [i \in 1..Len(b) |-> <<Bad>>] ELSE <<s>>
RECURSIVE Fallback(_, _)
Fallback(ts, run) == IF ts = <<>> THEN RunText(run)
                     ELSE IF IsByteTok(Head(ts)) THEN Fallback(Tail(ts), Append(run, ByteIn(Head(ts))))
                     ELSE RunText(run) \o <<Head(ts)>> \o Fallback(Tail(ts), <<>>)
\* ---------------------------------------------------------------------- ctc
Once(ts) == SelectSeq([i \in 1..Len(ts) |-> [t |-> ts[i], new |-> i = 1 \/ ts[i - 1] # ts[i]]], LAMBDA x : x.new)
Heard(d, t) == LET s == ReplaceStr(t, d.s, <<>>) IN IF d.cl = 1 THEN ReplaceStr(Tidy(Canon(s)), d.w, <<Sp>>) ELSE s
\* -------------------------------------------------------------------- strip
RECURSIVE LeadOf(_, _)
LeadOf(s, c) == IF s # <<>> /\ Head(s) = c THEN 1 + LeadOf(Tail(s), c) ELSE 0
Stripped(d, t) == LET s == Drop(t, Min2(d.a, LeadOf(t, d.s[1])))
                      n == Min2(d.z, LeadOf(Reverse(s), d.s[1]))
                  IN SubSeq(s, 1, Len(s) - n)
\* ------------------------------------------------------------- all decoders
Each(ts, f(_, _)) == [i \in 1..Len(ts) |-> f(i, ts[i])]
RECURSIVE Chain(_, _)
RECURSIVE ChainAll(_, _)
ChainAll(ds, ts) == IF ds = <<>> THEN ts ELSE ChainAll(Tail(ds), Chain(Head(ds), ts))
Chain(d, ts) == CanonAll(
  CASE d.k = "bpe" -> Each(ts, LAMBDA i, t : ReplaceStr(t, d.s, IF i = Len(ts) THEN <<>> ELSE <<Sp>>))
    [] d.k = "wordpiece" -> Each(ts, LAMBDA i, t :
         LET x == IF i = 1 THEN t ELSE IF IsPrefixOf(d.s, t) THEN Drop(t, Len(d.s)) ELSE <<Sp>> \o t IN IF d.cl = 1 THEN Tidy(x) ELSE x)
    [] d.k = "bytes" -> Fallback(ts, <<>>)
    [] d.k = "ctc" -> LET o == Once(ts) IN SelectSeq([i \in 1..Len(o) |-> Heard(d, o[i].t)], LAMBDA t : t # <<>>)
    [] d.k = "meta" -> Each(ts, LAMBDA i, t : ReplaceStr(t, d.s, IF i = 1 /\ d.pre = 1 THEN <<>> ELSE <<Sp>>))
    [] d.k = "fuse" -> <<Flatten(ts)>>
    [] d.k = "strip" -> Each(ts, LAMBDA i, t : Stripped(d, t))
    [] d.k = "replace" -> Each(ts, LAMBDA i, t : Text(ReplaceText(From(t), d.p, d.w)))
    [] d.k = "bytelevel" -> Each(ts, LAMBDA i, t : FromBytes(TokenBytes(t)))
    [] d.k = "seq" -> ChainAll(d.ds, ts))
Decoded(d, ts) == Canon(Flatten(Chain(d, ts)))
\* the tokens themselves are left alone, and a tokenizer decodes likewise
DecRet(d, ts) == [chain |-> Chain(d, ts), text |-> Decoded(d, ts), tkz |-> Decoded(d, ts), input |-> ts]
==============================================================================
