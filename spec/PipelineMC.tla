---------------------------- MODULE PipelineMC ----------------------------
(* Exhaustive small scopes of whole tokenizers for T01, T02 and T04.         *)
EXTENDS Pipeline

VARIABLES tk, cfg, hist, k
vars == <<tk, cfg, hist, k>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
a == 97  b == 98  A == 65  sp == 32  eac == 233  acute == 769  comma == 44  hash == 35  under == 9601  G == 288  LB == 91  RB == 93

-------------------------------------------------------------- \* the parts
Ent(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], id |-> i - 1]]
UNK == <<LB, 85, RB>>
ModelWp == [k |-> "wp", vocab |-> Ent(<<UNK, <<a>>, <<hash, hash, b>>, <<a, b>>, <<hash, hash, a, b>>, <<G>>, <<hash, hash, G>>, <<under>>, <<hash, hash, a>>, <<eac>>, <<sp, a>> >>),
        unk |-> UNK, pre |-> <<hash, hash>>, max |-> 5]
ModelWl == [k |-> "wl", vocab |-> Ent(<<UNK, <<a>>, <<a, b>>, <<G, a>>, <<under, a>> >>), unk |-> UNK, pre |-> <<>>, max |-> 0]
ModelBpe == [k |-> "bpe", vocab |-> << <<a>>, <<b>>, <<G>>, <<a, b>>, <<63>>, <<under>>, <<under, a>>, <<G, a>>, <<195>>, <<sp>>, <<a, b, a>> >>, merges |-> << <<0, 1, 3, 0>>, <<5, 0, 6, 1>>, <<2, 0, 7, 2>>, <<3, 0, 10, 3>> >>,
         unk |-> << <<63>> >>, pre |-> <<>>, suf |-> <<>>, drop |-> 0, cap |-> 10000]
ModelUni == [k |-> "uni", vocab |-> << [t |-> <<63>>, s |-> 0], [t |-> <<a>>, s |-> -10], [t |-> <<b>>, s |-> -11], [t |-> <<a, b>>, s |-> -17], [t |-> <<G, a>>, s |-> -5], [t |-> <<under>>, s |-> -9], [t |-> <<sp, a>>, s |-> -16] >>,
         unk |-> <<0>>, fuse |-> 1, fb |-> 0]
Gr == [k |-> "gram", vocab |-> Ent(<< <<a>>, <<b, a>> >>), w |-> 2]
\* a model that knows of no unknown text
Strict == [ModelWl EXCEPT !.vocab = Ent(<< <<a>>, <<a, b>> >>)]
Models == <<ModelWp, ModelWl, ModelBpe, ModelUni, Gr>>
LowerN == [k |-> "lower"]
Norms == << <<>>, <<LowerN>>, <<[k |-> "nf", f |-> 2]>>, <<[k |-> "strip", l |-> 1, r |-> 1]>>, <<[k |-> "prepend", s |-> <<under>>]>>,
            <<[k |-> "seq", ps |-> <<[k |-> "accents"], [k |-> "replace", p |-> [k |-> "str", s |-> <<a, b>>], s |-> <<b>>], LowerN>>]>> >>
Pres == << <<>>, <<[k |-> "ws"]>>, <<[k |-> "bl", prefix |-> 1, trim |-> 1]>>, <<[k |-> "meta", s |-> <<under>>, scheme |-> 1]>>, <<[k |-> "bl", prefix |-> 0, trim |-> 1]>>,
           <<[k |-> "seq", ps |-> <<[k |-> "wssplit"], [k |-> "split", p |-> [k |-> "rune", c |-> a], b |-> 3, inv |-> 0]>>]>> >>
Cls == [id |-> 9001, tk |-> <<LB, 67, RB>>]
Sep == [id |-> 9002, tk |-> <<LB, 83, RB>>]
Tpl == [k |-> "tpl", single |-> <<[k |-> "sp", s |-> 0, ty |-> 2, toks |-> <<Cls>>], [k |-> "seq", s |-> 0, ty |-> 1, toks |-> <<>>]>>,
        pair |-> <<[k |-> "seq", s |-> 1, ty |-> 1, toks |-> <<>>], [k |-> "sp", s |-> 0, ty |-> 0, toks |-> <<Sep, Cls>>], [k |-> "seq", s |-> 0, ty |-> 0, toks |-> <<>>]>>]
Posts == << <<>>, <<[k |-> "bert", cls |-> Cls, sep |-> Sep]>>, <<[k |-> "roberta", cls |-> Cls, sep |-> Sep, trim |-> 1, prefix |-> 1]>>, <<Tpl>>,
            <<[k |-> "sequ", ps |-> <<[k |-> "bytelevel", trim |-> 1, prefix |-> 0], Tpl>>]>> >>
Cut(max, strat, stride) == <<[max |-> max, strat |-> strat, stride |-> stride]>>
Truncs == << <<>>, Cut(5, 0, 0), Cut(6, 0, 1), Cut(7, 2, 0), Cut(6, 1, 0) >>
PadOf(target, left) == <<[target |-> target, p |-> [id |-> 7000, ty |-> 3, tk |-> <<LB, 80, RB>>, left |-> left]]>>
Pads == << <<>>, PadOf(-1, 0), PadOf(6, 1) >>
Tok(c, nz, sw, ls, rs) == [c |-> c, nz |-> nz, sw |-> sw, ls |-> ls, rs |-> rs]
AddOf(toks, special) == [toks |-> toks, special |-> special]
AddedA == <<AddOf(<<Tok(<<LB, 83, RB>>, 0, 0, 0, 1)>>, 1), AddOf(<<Tok(<<A, b>>, 1, 0, 0, 0)>>, 0)>>
Decs == << <<>>, <<[k |-> "fuse"]>>, <<[k |-> "wordpiece", s |-> <<hash, hash>>, cl |-> 1]>> >>
Config(m, ad, n, pr, po, tr, pd, d) == [m |-> m, added |-> ad, norm |-> n, pre |-> pr, post |-> po, trunc |-> tr, pad |-> pd, dec |-> d]

------------------------------------------------------------- \* the inputs
RawSeq(t) == [k |-> "raw", s |-> t]
WordSeq(ts) == [k |-> "words", s |-> ts]
T1 == <<a, b, sp, A, b, a, LB, 83, RB, sp, b>>
T2 == <<eac, comma, sp, sp, a>>
Inputs1 == << <<RawSeq(T1)>>, <<RawSeq(T2), RawSeq(T1)>>, <<WordSeq(<< <<a, b, a>>, <<>>, T2 >>)>>, <<RawSeq(<<>>), WordSeq(<< <<sp, a, b, a, b>>, <<b>> >>)>>, <<RawSeq(<<>>)>>, <<RawSeq(T1), RawSeq(<<>>)>> >>
Enc1(in, add, chars) == [a |-> "enc", in |-> in, add |-> add, chars |-> chars]
Ones(i) == <<Enc1(Inputs1[i], 1, 0), Enc1(Inputs1[i], 0, 0), [a |-> "batch", ins |-> <<Inputs1[i], Inputs1[1 + (i % 6)], Inputs1[1 + ((i + 1) % 6)]>>, add |-> 1]>>
\* every choice of parts, or of every three parts
Configs1 == {<<x1, x2, x3, x4, x5, x6, i>> \in (1..Len(Norms)) \X (1..Len(Pres)) \X (1..Len(Models)) \X (1..Len(Posts)) \X (1..Len(Truncs)) \X (1..Len(Pads)) \X (1..Len(Inputs1)) :
               (x1 + 2 * x2 + 3 * x3 + 4 * x4 + 6 * x5 + 5 * x6 + 7 * i) % (IF Big THEN 5 ELSE 31) = 0}

Texts2 == SeqsUpTo({a, b, A, sp, eac, acute}, IF Big THEN 4 ELSE 3)
Small2 == SeqsUpTo({a, sp, eac}, IF Big THEN 5 ELSE 4)
Configs2 == {<<x, y, z>> \in (1..Len(Norms)) \X (1..Len(Pres)) \X (1..Len(Models)) : Big \/ (x + 2 * y + 3 * z) % 6 = 0}

---------------------------------------------------------- \* T04: histories
Base4 == Config(ModelBpe, AddedA, <<>>, <<[k |-> "ws"]>>, <<[k |-> "bert", cls |-> Cls, sep |-> Sep]>>, <<>>, <<>>, <<>>)
Ask4 == {Enc1(<<RawSeq(T1)>>, 1, 0), Enc1(<<RawSeq(T2), RawSeq(T1)>>, 1, 1), [a |-> "batch", ins |-> << <<RawSeq(T1)>>, <<RawSeq(<<a>>)>> >>, add |-> 1],
         [a |-> "list"], [a |-> "dec", ids |-> <<3, 0, 11, 12, 13, 1>>, skip |-> 1],
         [a |-> "look", toks |-> << <<a>>, <<LB, 83, RB>>, <<A, b>>, <<eac>> >>, ids |-> <<0, 10, 11, 12, 13>>],
         [a |-> "tok", in |-> <<RawSeq(T1)>>, add |-> 0], [a |-> "decbatch", idss |-> <<<<0, 1>>>>, skip |-> 0], [a |-> "mangle"]}
Set4 == {[a |-> "add", toks |-> <<Tok(<<eac>>, 1, 0, 0, 0), Tok(<<a>>, 1, 0, 0, 0)>>, special |-> 0], [a |-> "add", toks |-> <<Tok(<<A, b>>, 0, 1, 0, 0), Tok(<<b, a>>, 0, 0, 0, 0)>>, special |-> 1],
         [a |-> "norm", p |-> <<LowerN>>], [a |-> "pre", p |-> <<>>], [a |-> "post", p |-> <<Tpl>>], [a |-> "trunc", p |-> Cut(5, 0, 1)], [a |-> "pad", p |-> PadOf(9, 0)],
         [a |-> "decoder", p |-> <<[k |-> "fuse"]>>]}
\* another model of the same vocabulary
Other(m) == CASE m.k = "bpe" -> [m EXCEPT !.merges = <<Head(@)>>]
              [] m.k = "wl" -> [m EXCEPT !.k = "wp", !.max = 2]
              [] m.k = "wp" -> [m EXCEPT !.max = 3]
Last4 == <<Enc1(<<RawSeq(T1)>>, 1, 0), Enc1(<<RawSeq(<<a>>)>>, 0, 0), [a |-> "list"]>>
Depth4 == (IF Big THEN 4 ELSE 3) - (IF cfg.m.k \in {"wl", "wp"} THEN 1 ELSE 0)

------------------------------------------------------------- \* the machine
Starts ==
  CASE Prop = "T01" -> {[c |-> Config(Models[x[3]], AddedA, Norms[x[1]], Pres[x[2]], Posts[x[4]], Truncs[x[5]], Pads[x[6]], <<>>), todo |-> Ones(x[7])] : x \in Configs1}
    [] Prop = "T02" -> {[c |-> Config(Models[x[3]], <<>>, Norms[x[1]], Pres[x[2]], <<>>, <<>>, <<>>, <<>>), todo |-> <<[a |-> "both", in |-> <<RawSeq(t)>>, add |-> 0]>>] : x \in Configs2, t \in Texts2}
                       \cup {[c |-> Config(Models[x[3]], <<AddOf(<<Tok(<<eac>>, 0, 0, 1, 1)>>, 1)>>, Norms[x[1]], Pres[x[2]], Posts[2], <<>>, <<>>, <<>>),
                              todo |-> <<[a |-> "both", in |-> <<WordSeq(<<t, <<a>>, t>>), RawSeq(t)>>, add |-> 1]>>] : x \in Configs2, t \in Small2}
    [] Prop = "T04" -> {[c |-> Base4, todo |-> <<>>], [c |-> [Base4 EXCEPT !.m = Strict], todo |-> <<>>]}
Init == \E s \in Starts : tk = Assemble(s.c) /\ cfg = s.c /\ k = 0 /\ hist = [c |-> s.c, todo |-> s.todo, steps |-> <<>>, obs |-> <<>>]
Choices == IF Prop = "T04" THEN (IF k < Depth4 THEN Ask4 \cup Set4 \cup {[a |-> "model", p |-> Other(cfg.m)]} ELSE IF k < Depth4 + Len(Last4) THEN {Last4[k - Depth4 + 1]} ELSE {})
           ELSE IF k < Len(hist.todo) THEN {hist.todo[k + 1]} ELSE {}
\* what is set, written down again
Written(c, s) ==
  CASE s.a = "add" -> [c EXCEPT !.added = Append(@, AddOf(s.toks, s.special))]
    [] s.a = "model" -> [c EXCEPT !.m = s.p]
    [] s.a = "norm" -> [c EXCEPT !.norm = s.p]
    [] s.a = "pre" -> [c EXCEPT !.pre = s.p]
    [] s.a = "post" -> [c EXCEPT !.post = s.p]
    [] s.a = "trunc" -> [c EXCEPT !.trunc = s.p]
    [] s.a = "pad" -> [c EXCEPT !.pad = s.p]
    [] s.a = "decoder" -> [c EXCEPT !.dec = s.p]
    [] OTHER -> c
Next == \E s \in Choices :
  /\ hist' = [hist EXCEPT !.steps = Append(@, s), !.obs = Append(@, [ret |-> PipeRet(tk, s)])]
  /\ tk' = PipeNext(tk, s) /\ cfg' = Written(cfg, s) /\ k' = k + 1
Spec == Init /\ [][Next]_vars
\* what has no prediction is left out
Certain(x) == CASE x.s.a \in {"enc", "tok", "batch"} -> "any" \notin DOMAIN x.o.ret
                [] x.s.a = "both" -> "any" \notin DOMAIN x.o.ret.b /\ "any" \notin DOMAIN x.o.ret.c
                [] OTHER -> TRUE
Emit == Choices = {} =>
  LET xs == SelectSeq([i \in 1..k |-> [s |-> hist.steps[i], o |-> hist.obs[i]]], Certain)
  IN xs # <<>> => PrintT("CASE" \o ToJson([op |-> "pipe", c |-> hist.c, steps |-> [i \in 1..Len(xs) |-> xs[i].s], exp |-> [obs |-> [i \in 1..Len(xs) |-> xs[i].o]]]))

----------------------------------------------------- \* property predicates
Last == hist.steps[k]
Ret == hist.obs[k].ret
IsPad(c, t) == c.pad # <<>> /\ t.id = c.pad[1].p.id /\ t.tk = c.pad[1].p.tk
InVocab(t) == TokenOf(tk.av, t.id) = <<t.tk>> /\ IdOf(tk.av, t.tk) = <<t.id>>
UnknownId == CASE cfg.m.k \in {"wp", "wl"} -> {0} [] cfg.m.k = "bpe" -> {4} [] cfg.m.k = "uni" -> {0} [] OTHER -> {}
AddedId(t) == \E i \in 1..Len(tk.av.added) : tk.av.added[i].id = t.id
WellFormedToken(t) ==
  /\ t.sp \in {0, 1} /\ t.at \in {0, 1} /\ 0 <= t.o1 /\ t.o1 <= t.o2
  /\ t.at = 0 <=> IsPad(cfg, t)
  /\ t.sp = 0 /\ cfg.m.k # "gram" => t.id \in UnknownId \/ AddedId(t) \/ InVocab(t)
  /\ t.sp = 1 => t.id \in {9001, 9002, 7000}
WellFormedEnc(in, add, e) ==
  /\ \A i \in 1..Len(e.t) : WellFormedToken(e.t[i])
  /\ \A j \in 1..Len(e.over) : \A l \in 1..Len(e.over[j].t) : WellFormedToken(e.over[j].t[l])
  /\ cfg.trunc # <<>> => Len(SelectSeq(e.t, LAMBDA t : t.at = 1)) <= cfg.trunc[1].max
  /\ cfg.pad # <<>> => Len(e.t) >= cfg.pad[1].target
  /\ cfg.pad = <<>> => \A n \in 1..Len(e.t) : e.t[n].at = 1
PropT01 ==
  k > 0 =>
  /\ Last.a = "enc" /\ "e" \in DOMAIN Ret => WellFormedEnc(Last.in, Last.add, Ret.e)
  /\ Last.a = "batch" /\ "es" \in DOMAIN Ret =>
       /\ Len(Ret.es) = Len(Last.ins)
       /\ \A i \in 1..Len(Ret.es) : WellFormedEnc(Last.ins[i], Last.add, Ret.es[i])
       /\ cfg.pad # <<>> /\ cfg.pad[1].target = -1 => \A i, j \in 1..Len(Ret.es) : Len(Ret.es[i].t) = Len(Ret.es[j].t)
\* offsets of the text tokens of a sequence in its text
SeqToks(e, s) == SelectSeq(e.t, LAMBDA t : t.sp = 0 /\ t.ty = s)
TextOfTok(in, t) == LET q == in[t.ty + 1] IN IF q.k = "raw" THEN q.s ELSE q.s[t.w + 1]
Backs(in, e) ==
  \A s \in 0..(Len(in) - 1) : LET ts == SeqToks(e, s) IN
    /\ \A i \in 1..Len(ts) : LET x == TextOfTok(in, ts[i]) IN
         /\ 0 <= ts[i].o1 /\ ts[i].o1 <= ts[i].o2 /\ ts[i].o2 <= Bytes(x)
         /\ (\E c \in 0..Len(x) : PosOf(x, c) = ts[i].o1) /\ (\E c \in 0..Len(x) : PosOf(x, c) = ts[i].o2)
    /\ \A i \in 1..(Len(ts) - 1) : TextOfTok(in, ts[i]) = TextOfTok(in, ts[i + 1]) /\ (in[s + 1].k = "raw" \/ ts[i].w = ts[i + 1].w) => ts[i].o1 <= ts[i + 1].o1 /\ ts[i].o2 <= ts[i + 1].o2
\* with nothing that changes the text, a known token is the text it points to
Selects(in, e) ==
  cfg.norm = <<>> /\ (cfg.pre = <<>> \/ cfg.pre[1].k = "ws") /\ cfg.m.k # "wp" =>
    \A i \in 1..Len(e.t) : e.t[i].sp = 1 \/ e.t[i].id \in UnknownId
       \/ LET x == TextOfTok(in, e.t[i]) IN \E c, d \in 0..Len(x) : PosOf(x, c) = e.t[i].o1 /\ PosOf(x, d) = e.t[i].o2 /\ Slice(x, c, d) = e.t[i].tk
InChars(in, e, f) ==
  /\ Len(e.t) = Len(f.t)
  /\ \A i \in 1..Len(e.t) : /\ [e.t[i] EXCEPT !.o1 = 0, !.o2 = 0] = [f.t[i] EXCEPT !.o1 = 0, !.o2 = 0]
                            /\ e.t[i].sp = 0 => LET x == TextOfTok(in, e.t[i]) IN PosOf(x, f.t[i].o1) = e.t[i].o1 /\ PosOf(x, f.t[i].o2) = e.t[i].o2
PropT02 == k > 0 /\ Last.a = "both" /\ "e" \in DOMAIN Ret.b => Backs(Last.in, Ret.b.e) /\ Selects(Last.in, Ret.b.e) /\ InChars(Last.in, Ret.b.e, Ret.c.e)
\* only what was set is there, whatever was asked in between, and a query does not change what is
PropT04 == /\ tk = Assemble(cfg)
           /\ k > 0 /\ Last \in Ask4 => PipeNext(tk, Last) = tk /\ Ret = PipeRet(tk, Last)
Holds == CASE Prop = "T01" -> PropT01 [] Prop = "T02" -> PropT02 [] Prop = "T04" -> PropT04
=============================================================================
