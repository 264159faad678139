----------------------------- MODULE WorkersMC -----------------------------
(* Every schedule of the workers of a few calls on one tokenizer: batches    *)
(* for T03, calls of different kinds for T04.                                *)
EXTENDS Workers

VARIABLES tk, cfg, calls, ws, cache, sched
vars == <<tk, cfg, calls, ws, cache, sched>>
Prop == IOEnv.PROP
Big == IOEnv.TIER = "thorough"
sp == 32
\* worker j has letters of its own
L(j) == 95 + 2 * j
Ent(ts) == [i \in 1..Len(ts) |-> [t |-> ts[i], id |-> i - 1]]
\* words it knows: every first letter, and every first letter doubled
Known4 == Flatten([j \in 1..4 |-> << <<L(j)>>, <<L(j), L(j)>> >>])
Strict == [k |-> "wl", vocab |-> Ent(Known4), unk |-> <<91, 93>>, pre |-> <<>>, max |-> 0]
Bpe1 == [k |-> "bpe", vocab |-> Known4, merges |-> [j \in 1..4 |-> <<2 * j - 2, 2 * j - 2, 2 * j - 1, j - 1>>], unk |-> <<>>, pre |-> <<>>, suf |-> <<>>, drop |-> 0, cap |-> 10000]
Cls == [id |-> 9001, tk |-> <<91, 67, 93>>]
Sep == [id |-> 9002, tk |-> <<91, 83, 93>>]
PadLongest == <<[target |-> -1, p |-> [id |-> 7000, ty |-> 3, tk |-> <<91, 80, 93>>, left |-> 1]]>>
Config(m, n, pr, po, pd, d) == [m |-> m, added |-> <<>>, norm |-> n, pre |-> pr, post |-> po, trunc |-> <<>>, pad |-> pd, dec |-> d]
LowerN == <<[k |-> "lower"]>>
Ws == <<[k |-> "ws"]>>
Bert == <<[k |-> "bert", cls |-> Cls, sep |-> Sep]>>
Fuse == <<[k |-> "fuse"]>>
\* texts of worker j: one word, two words, one it does not know, none
Txt(j, n) == CASE n = 1 -> <<L(j)>> [] n = 2 -> <<L(j), L(j), sp, L(j)>> [] n = 3 -> <<L(j), L(j) + 1>> [] n = 4 -> <<>>
RawIn(t) == <<[k |-> "raw", s |-> t]>>
Batch1(ns, from, add) == [a |-> "batch", ins |-> [i \in 1..Len(ns) |-> RawIn(Txt(from + i, ns[i]))], add |-> add]
Enc1(j, n) == [a |-> "enc", in |-> RawIn(Txt(j, n)), add |-> 1, chars |-> 0]
EncPair(j, n) == [a |-> "enc", in |-> RawIn(Txt(j, n)) \o RawIn(Txt(j, 1)), add |-> 1, chars |-> 0]
\* rows of ids of worker j
IdRow(j, n) == CASE n = 1 -> <<2 * j - 2>> [] n = 2 -> <<2 * j - 1, 2 * j - 2>> [] n = 3 -> <<>> [] n = 4 -> <<50, 2 * j - 1>>
DecBatch(ns, from) == [a |-> "decbatch", idss |-> [i \in 1..Len(ns) |-> IdRow(from + i, ns[i])], skip |-> 0]
Dec1(j, n) == [a |-> "dec", ids |-> IdRow(j, n), skip |-> 0]
Full == Config(Strict, LowerN, Ws, Bert, PadLongest, <<>>)
Bare == Config(Strict, <<>>, <<>>, <<>>, PadLongest, <<>>)
Begun(c, cs) == [c |-> c, calls |-> cs]
Starts3 ==
  {Begun(Full, <<Batch1(<<m, n>>, 0, 1)>>) : m, n \in 1..4}
  \cup {Begun([Full EXCEPT !.m = Bpe1, !.post = <<>>], <<Batch1(<<m, n>>, 0, 1)>>) : m, n \in 1..3}
  \cup {Begun(Config(Strict, <<>>, <<>>, Bert, <<>>, <<>>), <<Batch1(<<m, n, p>>, 0, 1)>>) : m, n, p \in {1, 3, 4}}
  \cup {Begun(Bare, <<Batch1(<<m, n, p, q>>, 0, 0)>>) : m, n, p, q \in {1, 3}}
  \cup {Begun(Bare, <<DecBatch(<<m, n, p>>, 0)>>) : m, n, p \in 1..(IF Big THEN 4 ELSE 3)}
  \cup {Begun(Config(Bpe1, <<>>, <<>>, <<>>, <<>>, Fuse), <<DecBatch(<<m, n>>, 0)>>) : m, n \in 1..4}
  \cup {Begun(Bare, <<Batch1(<<m, n>>, 0, 0), DecBatch(<<p, q>>, 2)>>) : m, n \in {1, 3}, p, q \in 1..3}
  \cup (IF ~Big THEN {} ELSE {Begun(Full, <<Batch1(<<m, n, p>>, 0, 1)>>) : m, n, p \in {1, 3, 4}} \cup {Begun([Bare EXCEPT !.pre = Ws], <<Batch1(<<m, n, p>>, 0, 1)>>) : m, n, p \in 1..3})
Starts4 ==
  {Begun(c, <<x, y>>) : c \in {Full, [Full EXCEPT !.m = Bpe1, !.dec = Fuse]}, x \in {Enc1(1, 2), EncPair(1, 1), Enc1(1, 3)},
                        y \in {Enc1(2, 1), Dec1(2, 2), [a |-> "list"], [a |-> "look", toks |-> << <<L(1)>>, <<0>> >>, ids |-> <<0, 1, 50>>]}}
  \cup {Begun([Full EXCEPT !.norm = <<>>, !.pre = <<>>], <<Enc1(1, 1), Dec1(2, 2), EncPair(3, 1)>>)}
  \cup (IF ~Big THEN {} ELSE {Begun(Full, <<Enc1(1, 1), Dec1(2, m), Enc1(3, n), [a |-> "list"]>>) : m \in {1, 2}, n \in {1, 3}})

Init == \E s \in IF Prop = "T03" THEN Starts3 ELSE Starts4 :
  LET t == Assemble(s.c) IN
  /\ tk = t /\ cfg = s.c /\ calls = s.calls /\ sched = <<>> /\ cache = <<>>
  \* only a worker at a gate can be seen; nothing is in the cache before one has passed
  /\ ws = [c \in 1..Len(s.calls) |-> [i \in 1..Len(WorkersOf(s.calls[c])) |-> Settle(t, <<>>, Begin(WorkersOf(s.calls[c])[i])).s]]
Next == \E c \in 1..Len(ws) : \E i \in 1..Len(ws[c]) :
  /\ ws[c][i].at # "done"
  /\ LET r == Through(tk, cache, ws[c][i]) IN ws' = [ws EXCEPT ![c][i] = r.s] /\ cache' = r.cache
  \* workers are numbered through
  /\ sched' = Append(sched, SumSeq([j \in 1..(c - 1) |-> Len(ws[j])]) + i)
  /\ UNCHANGED <<tk, cfg, calls>>
Spec == Init /\ [][Next]_vars
AllDone == \A c \in 1..Len(ws) : \A i \in 1..Len(ws[c]) : ws[c][i].at = "done"
Returned == [c \in 1..Len(calls) |-> Collect(tk, calls[c], ws[c])]
Emit == AllDone => PrintT("CASE" \o ToJson([op |-> "sched", c |-> cfg, steps |-> calls, sched |-> sched, exp |-> [obs |-> [c \in 1..Len(calls) |-> [ret |-> Returned[c]]]]]))
\* whatever the schedule: each call returns what it returns alone, and an item
\* of a batch what it is alone, but for padding
Alone(call, i) == IF call.a = "batch" THEN Rets(Encode([tk EXCEPT !.pad = <<>>], call.ins[i], call.add, 0)) ELSE Decode(tk, call.idss[i], call.skip)
Unpadded(e) == [e EXCEPT !.t = SelectSeq(@, LAMBDA t : t.at = 1)]
Holds ==
  /\ tk = Assemble(cfg)
  /\ \A w \in DOMAIN cache : cache[w] = ModelOn(tk.m, w)
  /\ AllDone =>
       /\ \A n \in 1..Len(calls) : Returned[n] = PipeRet(tk, calls[n])
       /\ \A n \in 1..Len(calls) : calls[n].a = "decbatch" => Returned[n] = [i \in 1..Len(calls[n].idss) |-> Alone(calls[n], i)]
       /\ \A n \in 1..Len(calls) : calls[n].a = "batch" =>
            IF \E i \in 1..Len(calls[n].ins) : Alone(calls[n], i) = [err |-> 1] THEN Returned[n] = [err |-> 1]
            ELSE /\ Len(Returned[n].es) = Len(calls[n].ins)
                 /\ \A i \in 1..Len(calls[n].ins) : Unpadded(Returned[n].es[i]).t = Alone(calls[n], i).e.t
=============================================================================
