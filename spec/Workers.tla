------------------------------ MODULE Workers ------------------------------
(* Calls on one tokenizer, each with its workers, all at the same time. A    *)
(* worker encodes one input, or decodes one row of ids, stage by stage; what *)
(* workers share is the tokenizer and the cache of its model. Only where a   *)
(* worker enters a part of the tokenizer (a gate) is its order with the      *)
(* others visible; the stages between two gates are one step.                *)
(* A call is a step of Pipeline: enc, dec, batch, decbatch, list or look.    *)
EXTENDS Pipeline

WorkersOf(call) ==
  CASE call.a = "enc" -> <<[k |-> "enc", in |-> call.in, add |-> call.add]>>
    [] call.a = "batch" -> [i \in 1..Len(call.ins) |-> [k |-> "enc", in |-> call.ins[i], add |-> call.add]]
    [] call.a = "dec" -> <<[k |-> "dec", ids |-> call.ids, skip |-> call.skip]>>
    [] call.a = "decbatch" -> [i \in 1..Len(call.idss) |-> [k |-> "dec", ids |-> call.idss[i], skip |-> call.skip]]
    [] OTHER -> << >>
\* one at its start. encs: the sequences encoded; x, sp, i, toks: the one at hand
Begin(w) == IF w.k = "enc" THEN [w |-> w, at |-> "extract", encs |-> <<>>, x |-> <<>>, sp |-> <<>>, toks |-> <<>>, out |-> <<>>]
            ELSE [w |-> w, at |-> "ids", toks |-> <<>>, i |-> 0, out |-> <<>>]
Letter(t) == \E j \in 1..Len(t) : t[j] \in 97..112
\* the text a part of the tokenizer is given next
Given(tk, s) ==
  CASE s.at = "extract" -> IF tk.av.norm = <<>> THEN <<>> ELSE s.w.in[Len(s.encs) + 1].s
    [] s.at = "split" -> IF tk.av.pre = <<>> THEN <<>> ELSE s.w.in[Len(s.encs) + 1].s
    [] s.at = "model" -> LET i == Len(s.toks) + 1 IN IF i > Len(s.sp) THEN <<>> ELSE IF s.sp[i].tk = 1 THEN <<>> ELSE Text(s.sp[i].n)
    [] s.at = "finish" -> IF tk.post = <<>> THEN <<>> ELSE Flatten([j \in 1..Len(s.encs) |-> Flatten([l \in 1..Len(s.encs[j].t) |-> s.encs[j].t[l].tk])])
    [] s.at = "ids" -> IF s.i >= Len(s.w.ids) THEN <<>> ELSE LET t == TokenOf(tk.av, s.w.ids[s.i + 1]) IN IF t = <<>> THEN <<>> ELSE t[1]
    [] s.at = "decode" -> IF tk.dec = <<>> THEN <<>> ELSE Flatten(s.toks)
    [] OTHER -> <<>>
Gated(tk, s) == Letter(Given(tk, s))
\* one stage. cache: the words the model has met
WorkOn(tk, cache, s) ==
  CASE s.at = "extract" -> [s |-> [s EXCEPT !.x = ExtractAndNormalize(tk.av, s.w.in[Len(s.encs) + 1].s), !.at = "split"], cache |-> cache]
    [] s.at = "split" -> [s |-> [s EXCEPT !.sp = IF tk.av.pre = <<>> THEN s.x.sp ELSE PreTokenize(tk.av.pre[1], s.x.sp), !.toks = <<>>, !.at = "model"], cache |-> cache]
    [] s.at = "model" ->
         LET i == Len(s.toks) + 1
             text == Text(s.sp[i].n)
             r == IF s.sp[i].tk = 1 THEN [err |-> 0, toks |-> s.sp[i].toks] ELSE IF text \in DOMAIN cache THEN cache[text] ELSE ModelOn(tk.m, text)
             e == EncFrom(s.x, s.sp, s.toks, Len(s.encs), -1, 0)
         IN IF i > Len(s.sp) THEN [s |-> [s EXCEPT !.encs = Append(@, e), !.at = IF Len(s.encs) + 1 < Len(s.w.in) THEN "extract" ELSE "finish"], cache |-> cache]
            ELSE IF r.err = 1 THEN [s |-> [s EXCEPT !.at = "done", !.out = <<[err |-> 1]>>], cache |-> cache]
            ELSE [s |-> [s EXCEPT !.toks = Append(@, r.toks)], cache |-> IF s.sp[i].tk = 1 THEN cache ELSE (text :> r) @@ cache]
    [] s.at = "finish" ->
         LET hasB == Len(s.encs) = 2  b == IF hasB THEN s.encs[2] ELSE E!Empty IN
         [s |-> [s EXCEPT !.at = "done", !.out = <<[err |-> 0, e |-> PostProcess(tk, s.encs[1], b, hasB, s.w.add)]>>], cache |-> cache]
    [] s.at = "ids" ->
         [s |-> IF s.i >= Len(s.w.ids) THEN [s EXCEPT !.at = "decode"]
                ELSE [s EXCEPT !.i = @ + 1, !.toks = @ \o Kept(tk.av, <<s.w.ids[s.i + 1]>>, s.w.skip)],
          cache |-> cache]
    [] s.at = "decode" -> [s |-> [s EXCEPT !.at = "done", !.out = <<IF tk.dec = <<>> THEN JoinSp(s.toks) ELSE D!Decoded(tk.dec[1], s.toks)>>], cache |-> cache]
\* on to the next gate
RECURSIVE Settle(_, _, _)
Settle(tk, cache, s) == IF s.at = "done" \/ Gated(tk, s) THEN [s |-> s, cache |-> cache]
                        ELSE LET r == TLCEval(WorkOn(tk, cache, s)) IN Settle(tk, r.cache, r.s)
Through(tk, cache, s) == LET r == TLCEval(WorkOn(tk, cache, s)) IN Settle(tk, r.cache, r.s)
\* what a call returns when its workers are done
Collect(tk, call, ws) ==
  CASE call.a = "enc" -> ws[1].out[1]
    [] call.a = "dec" -> ws[1].out[1]
    [] call.a = "batch" ->
         IF \E i \in 1..Len(ws) : ws[i].out[1].err = 1 THEN [err |-> 1]
         ELSE LET es == [i \in 1..Len(ws) |-> ws[i].out[1].e] IN
              [err |-> 0, es |-> IF tk.pad = <<>> THEN es ELSE E!PadBatch(es, tk.pad[1].target, tk.pad[1].p)]
    [] call.a = "decbatch" -> [i \in 1..Len(ws) |-> ws[i].out[1]]
    [] OTHER -> PipeRet(tk, call)
=============================================================================
