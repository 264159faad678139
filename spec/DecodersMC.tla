----------------------------- MODULE DecodersMC -----------------------------
(* Every decoder with all short lists of telling tokens; a sequence of       *)
(* decoders takes one step per member.                                       *)
EXTENDS Decoders
VARIABLES d, ts, left, now
vars == <<d, ts, left, now>>
Big == IOEnv.TIER = "thorough"
a == 97  w == 119  us == 95  eac == 233
Str(s) == [k |-> "str", s |-> s]
Re(r) == [k |-> "re", r |-> r]
Set(c) == [n |-> "set", cs |-> <<c>>, neg |-> 0]
B(h, l) == <<60, 48, 120, h, l, 62>>
Apos == {<<Ap, 115>>, <<110, Ap, 116>>, <<46>>, <<Ap, Sp>>, <<44, Sp, 33>>, <<a, Sp, Ap, Sp, Ap, 109>>, <<100, 111, Sp, 110, 111, 116>>, <<a>>, <<>>}
ByteToks == {B(54, 49), B(67, 51), B(65, 57), B(97, 57), B(71, 49), B(69, 50), B(56, 50), B(65, 67), <<a>>, <<>>, <<60, 48, 120, 54, 62>>}
Groups == {
  [ds |-> {[k |-> "bpe", s |-> <<w>>], [k |-> "bpe", s |-> <<w, w>>]}, ts |-> SeqsUpTo({a, w}, 2) \cup {<<a, w, w>>, <<w, a, w>>, <<w, w, w>>}, n |-> 3],
  [ds |-> {[k |-> "wordpiece", s |-> <<35>>, cl |-> c] : c \in {0, 1}}, ts |-> {<<>>, <<a>>, <<35>>, <<35, a>>, <<35, 35>>, <<a, 35>>, <<46>>, <<Ap, 115>>, <<35, Sp, 46>>}, n |-> 3],
  [ds |-> {[k |-> "wordpiece", s |-> <<35, 35>>, cl |-> 1], [k |-> "wordpiece", s |-> <<>>, cl |-> 1], [k |-> "ctc", s |-> <<a>>, w |-> <<Ap>>, cl |-> 1]}, ts |-> Apos, n |-> 2],
  [ds |-> {[k |-> "bytes"]}, ts |-> ByteToks, n |-> 3],
  [ds |-> {[k |-> "ctc", s |-> <<112>>, w |-> <<124>>, cl |-> c] : c \in {0, 1}}, ts |-> {<<>>, <<a>>, <<112>>, <<112, a>>, <<124>>, <<a, Sp, 124, 112>>, <<Sp, 112, 46>>, <<112, 112>>}, n |-> 3],
  [ds |-> {[k |-> "meta", s |-> <<us>>, pre |-> p] : p \in {0, 1}} \cup {[k |-> "fuse"]}, ts |-> SeqsUpTo({a, us}, 2) \cup {<<us, a, us>>, <<-us - 100>>}, n |-> 3],
  [ds |-> {[k |-> "strip", s |-> <<us>>, a |-> x, z |-> y] : x, y \in 0..3}, ts |-> SeqsUpTo({a, us}, 4), n |-> 1],
  [ds |-> {[k |-> "strip", s |-> <<eac>>, a |-> x, z |-> y] : x, y \in 0..2}, ts |-> SeqsUpTo({a, eac}, 2), n |-> 2],
  [ds |-> {[k |-> "replace", p |-> p, w |-> x] : x \in {<<>>, <<Sp>>, <<a, a>>},
             p \in {Str(<<a>>), Str(<<us, us>>), Re([n |-> "plus", l |-> Set(us)]), Re([n |-> "star", l |-> Set(a)]), Re([n |-> "seq", l |-> [n |-> "beg"], r |-> Set(us)]), Re([n |-> "seq", l |-> Set(us), r |-> [n |-> "end"]])}},
   ts |-> SeqsUpTo({a, us}, 3), n |-> 1],
  [ds |-> {[k |-> "bytelevel"]}, ts |-> {<<288>>, <<a, 288>>, <<195>>, <<169>>, <<195, 169>>, <<266, 323>>, <<8364>>, <<a, 32>>, <<>>, <<233>>}, n |-> 3]}
Members == {[k |-> "replace", p |-> Str(<<us>>), w |-> <<Sp>>], [k |-> "bytes"], [k |-> "fuse"], [k |-> "strip", s |-> <<Sp>>, a |-> 1, z |-> 1],
            [k |-> "meta", s |-> <<us>>, pre |-> 1], [k |-> "bytelevel"], [k |-> "ctc", s |-> <<112>>, w |-> <<us>>, cl |-> 1], [k |-> "wordpiece", s |-> <<us>>, cl |-> 1], [k |-> "bpe", s |-> <<us>>]}
Seqs == {[k |-> "seq", ds |-> l] : l \in UNION {[1..n -> Members] : n \in {0, 2}}}
        \cup {[k |-> "seq", ds |-> <<[k |-> "replace", p |-> Str(<<us>>), w |-> <<Sp>>], [k |-> "bytes"], [k |-> "fuse"], [k |-> "strip", s |-> <<Sp>>, a |-> 1, z |-> 0]>>]}
        \cup {[k |-> "seq", ds |-> <<x, [k |-> "seq", ds |-> <<y, x>>]>>] : x, y \in Members}
SeqToks == {<<us, a>>, <<us>>, B(65, 57), B(67, 51), <<a, us>>, <<Sp, 46>>}
Group == Groups \cup {[ds |-> Seqs, ts |-> SeqToks, n |-> IF Big THEN 3 ELSE 2]}
Init == /\ \E g \in Group : d \in g.ds /\ \E n \in 0..(g.n + (IF Big /\ Cardinality(g.ts) < 12 THEN 1 ELSE 0)) : ts \in [1..n -> g.ts]
        /\ left = (IF d.k = "seq" THEN d.ds ELSE <<d>>) /\ now = ts
Next == left # <<>> /\ left' = Tail(left) /\ now' = Chain(Head(left), now) /\ UNCHANGED <<d, ts>>
Spec == Init /\ [][Next]_vars
Emit == (left = <<>>) => LET r == [ret |-> DecRet(d, ts)] IN
  PrintT("CASE" \o ToJson([op |-> "decode", d |-> d, steps |-> <<ts, ts>>, exp |-> [obs |-> <<r, r>>]]))
TextNow == Canon(Flatten(now))
Count(s, c) == Cardinality({i \in 1..Len(s) : s[i] = c})
Holds == left = <<>> =>
  /\ now = Chain(d, ts) /\ TextNow = Decoded(d, ts)
  /\ (d.k \in {"bpe", "wordpiece", "meta", "strip", "replace", "bytelevel"} => Len(now) = Len(ts))
  /\ (d.k = "bytelevel" => BytesOf(TextNow) = Flatten([i \in 1..Len(ts) |-> TokenBytes(ts[i])]))
  /\ (d.k = "bytes" /\ (\A i \in 1..Len(ts) : IsByteTok(ts[i])) =>
        LET b == [i \in 1..Len(ts) |-> ByteIn(ts[i])] IN BytesOf(TextNow) = b \/ TextNow = [i \in 1..Len(ts) |-> Bad])
  /\ (d.k = "bytes" => \A i \in 1..Len(now) : ~IsByteTok(now[i]))
  /\ (d.k = "ctc" => Chain(d, ts \o (IF ts = <<>> THEN <<>> ELSE <<ts[Len(ts)]>>)) = now /\ (\A i \in 1..Len(now) : now[i] # <<>>))
  /\ (d.k = "strip" => \A i \in 1..Len(ts) : Len(ts[i]) - Len(now[i]) <= d.a + d.z /\ Count(ts[i], d.s[1]) - Count(now[i], d.s[1]) = Len(ts[i]) - Len(now[i]))
  /\ (d.k = "meta" => Count(TextNow, d.s[1]) = 0)
  /\ (d.k = "wordpiece" /\ d.cl = 0 /\ d.s # <<>> /\ (\A i \in 1..Len(ts) : Count(ts[i], Sp) = 0) =>
        Count(TextNow, Sp) = Cardinality({i \in 2..Len(ts) : ~IsPrefixOf(d.s, ts[i])}))
=============================================================================
