package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/pretokenizer"
)

// Whole tokenizers: a configuration and a history of calls (see spec/Pipeline.tla).

type truncJ struct {
	Max    int `json:"max"`
	Strat  int `json:"strat"`
	Stride int `json:"stride"`
}

type padsJ struct {
	Target int  `json:"target"`
	P      padJ `json:"p"`
}

type addJ struct {
	Toks    []addedTok `json:"toks"`
	Special int        `json:"special"`
}

type pipeJ struct {
	M     json.RawMessage `json:"m"`
	Added []addJ          `json:"added"`
	Norm  []*nrm          `json:"norm"`
	Pre   []*pre          `json:"pre"`
	Post  []procJ         `json:"post"`
	Trunc []truncJ        `json:"trunc"`
	Pad   []padsJ         `json:"pad"`
	Dec   []*dec          `json:"dec"`
}

type seqJ struct {
	K string          `json:"k"`
	S json.RawMessage `json:"s"`
}

type pipeStep struct {
	A       string          `json:"a"`
	In      []seqJ          `json:"in"`
	Ins     [][]seqJ        `json:"ins"`
	Add     int             `json:"add"`
	Chars   int             `json:"chars"`
	Ids     []int           `json:"ids"`
	Idss    [][]int         `json:"idss"`
	Skip    int             `json:"skip"`
	Toks    json.RawMessage `json:"toks"`
	Special int             `json:"special"`
	P       json.RawMessage `json:"p"`
}

func makeModel(raw json.RawMessage, alt int) tokenizer.Model {
	switch k := parse[struct {
		K string `json:"k"`
	}](raw).K; k {
	case "wp":
		return parse[wordModel](raw).wordPiece(alt)
	case "wl":
		return parse[wordModel](raw).wordLevel(alt, 0)
	case "bpe":
		m := parse[bpeModel](raw)
		return m.make(alt)
	case "uni":
		return parse[uniModel](raw).make(alt)
	case "gram":
		m := parse[struct {
			Vocab []entry `json:"vocab"`
			W     int     `json:"w"`
		}](raw)
		return newGramModel(m.Vocab, m.W)
	default:
		check(fmt.Errorf("unknown model %q", k))
		return nil
	}
}

func (p truncJ) make() *tokenizer.TruncationParams {
	return &tokenizer.TruncationParams{MaxLength: p.Max, Strategy: tokenizer.TruncationStrategy(p.Strat), Stride: p.Stride}
}

func (p padsJ) make() *tokenizer.PaddingParams {
	strat := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if p.Target >= 0 {
		strat = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(p.Target))
	}
	return &tokenizer.PaddingParams{Strategy: *strat, Direction: p.P.dir(), PadId: p.P.Id, PadTypeId: p.P.Ty, PadToken: p.P.Tk.str()}
}

type pipeline struct {
	c      pipeJ
	tk     *tokenizer.Tokenizer
	handed []func() // overwrites what was handed out
	loaded bool     // from a document, its parts are not known here
}

// newPipeline assembles a tokenizer, its parts in some order.
func newPipeline(c pipeJ, alt int) *pipeline {
	p := &pipeline{tk: tokenizer.NewTokenizer(makeModel(c.M, alt))}
	p.c.M = c.M
	sets := []func(){
		func() { p.norm(c.Norm, alt) },
		func() { p.pre(c.Pre, alt) },
		func() {
			for _, a := range c.Added {
				p.add(a, alt)
			}
		},
		func() { p.post(c.Post) },
		func() { p.trunc(c.Trunc) },
		func() { p.pad(c.Pad) },
		func() { p.decoder(c.Dec, alt) },
	}
	for i := range sets {
		sets[(i*(1+alt%6)+alt)%len(sets)]()
	}
	return p
}

func (p *pipeline) norm(x []*nrm, alt int) {
	p.c.Norm = x
	p.tk.WithNormalizer(nil)
	if len(x) > 0 {
		p.tk.WithNormalizer(x[0].make(alt))
	}
}

func (p *pipeline) pre(x []*pre, alt int) {
	p.c.Pre = x
	p.tk.WithPreTokenizer(nil)
	if len(x) > 0 {
		p.tk.WithPreTokenizer(x[0].make(alt))
	}
}

func (p *pipeline) post(x []procJ) {
	p.c.Post = x
	p.tk.WithPostProcessor(nil)
	if len(x) > 0 {
		p.tk.WithPostProcessor(x[0].build())
	}
}

func (p *pipeline) trunc(x []truncJ) {
	p.c.Trunc = x
	p.tk.WithTruncation(nil)
	if len(x) > 0 {
		p.tk.WithTruncation(x[0].make())
	}
}

func (p *pipeline) pad(x []padsJ) {
	p.c.Pad = x
	p.tk.WithPadding(nil)
	if len(x) > 0 {
		p.tk.WithPadding(x[0].make())
	}
}

func (p *pipeline) decoder(x []*dec, alt int) {
	p.c.Dec = x
	p.tk.WithDecoder(nil)
	if len(x) > 0 {
		p.tk.WithDecoder(x[0].make(alt))
	}
}

func (p *pipeline) add(a addJ, alt int) int {
	p.c.Added = append(append([]addJ{}, p.c.Added...), a)
	var ts []tokenizer.AddedToken
	for i, t := range a.Toks {
		ts = append(ts, t.make(alt+i))
	}
	if a.Special == 1 {
		return p.tk.AddSpecialTokens(ts)
	}
	return p.tk.AddTokens(ts)
}

func (q seqJ) words() []string {
	if q.K == "raw" {
		return []string{parse[cps](q.S).str()}
	}
	return strList(parse[[]cps](q.S))
}

func (q seqJ) make(alt int) tokenizer.InputSequence {
	if q.K == "words" {
		return tokenizer.NewInputSequence(q.words())
	}
	if alt%2 == 0 {
		return tokenizer.NewRawInputSequence(q.words()[0])
	}
	return tokenizer.NewInputSequence(q.words()[0])
}

func makeInput(in []seqJ, alt int) tokenizer.EncodeInput {
	if len(in) == 1 {
		return tokenizer.NewSingleEncodeInput(in[0].make(alt))
	}
	return tokenizer.NewDualEncodeInput(in[0].make(alt), in[1].make(alt/2))
}

// room says whether truncation leaves room for the input, by encoding it with
// a tokenizer of its own that does not truncate.
func (p *pipeline) room(in []seqJ, add int) bool {
	var t truncJ
	probe := p
	switch {
	case p.loaded:
		q := p.tk.GetTruncation()
		if q == nil {
			return true
		}
		t = truncJ{q.MaxLength, int(q.Strategy), q.Stride}
	case len(p.c.Trunc) == 0:
		return true
	default:
		c := p.c
		t = c.Trunc[0]
		c.Trunc, c.Pad, c.Post, c.Dec = nil, nil, nil, nil
		probe = newPipeline(c, 0)
	}
	a, err := probe.tk.EncodeSingleSequence(in[0].make(0), 0, tokenizer.Byte)
	if err != nil {
		return true
	}
	var b *tokenizer.Encoding
	if len(in) == 2 {
		if b, err = probe.tk.EncodeSingleSequence(in[1].make(0), 1, tokenizer.Byte); err != nil {
			return true
		}
	}
	if add == 1 && p.tk.GetPostProcessor() != nil {
		t.Max -= p.tk.GetPostProcessor().AddedTokens(len(in) == 2)
	}
	return truncPairPre(a, b, t.Max, t.Strat)
}

func scribble(e *tokenizer.Encoding) {
	for i := range e.Ids {
		e.Ids[i] = -7
	}
	for _, xs := range [][]int{e.TypeIds, e.SpecialTokenMask, e.AttentionMask, e.Words} {
		for i := range xs {
			xs[i] = 77
		}
	}
	for i := range e.Tokens {
		e.Tokens[i] = "?"
	}
	for i := range e.Offsets {
		for j := range e.Offsets[i] {
			e.Offsets[i][j] = -3
		}
		e.Offsets[i] = []int{4, 4}
	}
	for sid, r := range e.SequenceRanges {
		for i := range r {
			r[i] = 50
		}
		delete(e.SequenceRanges, sid)
	}
	for i := range e.Overflowing {
		scribble(&e.Overflowing[i])
	}
	// what is appended must not be seen by anyone else either
	e.Ids = append(e.Ids, -8)
	e.Tokens = append(e.Tokens, "??")
	e.Offsets = append(e.Offsets, []int{9, 9})
}

func (p *pipeline) encode(in []seqJ, add, chars, alt int) any {
	if !p.room(in, add) {
		return M{"noroom": 1}
	}
	special := add == 1
	var e *tokenizer.Encoding
	var err error
	raw := in[0].K == "raw" && (len(in) == 1 || in[1].K == "raw")
	switch {
	case chars == 1:
		e, err = p.tk.EncodeCharOffsets(makeInput(in, alt), special)
	case alt%3 == 0 && raw && len(in) == 1 && !special:
		e, err = p.tk.EncodeSingle(in[0].words()[0])
	case alt%3 < 2 && raw && len(in) == 1:
		e, err = p.tk.EncodeSingle(in[0].words()[0], special)
	case alt%3 == 0 && raw && !special:
		e, err = p.tk.EncodePair(in[0].words()[0], in[1].words()[0])
	case alt%3 < 2 && raw:
		e, err = p.tk.EncodePair(in[0].words()[0], in[1].words()[0], special)
	default:
		e, err = p.tk.Encode(makeInput(in, alt), special)
	}
	if err != nil {
		return M{"err": 1}
	}
	out := M{"err": 0, "e": projEnc(e)}
	p.handed = append(p.handed, func() { scribble(e) })
	return out
}

func (p *pipeline) do(s pipeStep, alt int) any {
	switch s.A {
	case "enc":
		return p.encode(s.In, s.Add, s.Chars, alt)
	case "both":
		return M{"b": p.encode(s.In, s.Add, 0, alt), "c": p.encode(s.In, s.Add, 1, alt)}
	case "tok":
		if !p.room(s.In, s.Add) {
			return M{"noroom": 1}
		}
		text := s.In[0].words()[0]
		toks, err := p.tk.Tokenize(text, s.Add == 1)
		if s.Add == 0 && alt%2 == 0 {
			toks, err = p.tk.Tokenize(text)
		}
		if err != nil {
			return M{"err": 1}
		}
		out := M{"err": 0, "toks": cpsList(toks)}
		p.handed = append(p.handed, func() {
			for i := range toks {
				toks[i] = "!"
			}
		})
		return out
	case "batch":
		var ins []tokenizer.EncodeInput
		for i, in := range s.Ins {
			if !p.room(in, s.Add) {
				return M{"noroom": 1}
			}
			ins = append(ins, makeInput(in, alt+i))
		}
		es, err := p.tk.EncodeBatch(ins, s.Add == 1)
		if err != nil && len(es) > 0 {
			return M{"err": 1, "partial": len(es)}
		}
		if err != nil {
			return M{"err": 1}
		}
		out := []any{}
		for i := range es {
			out = append(out, projEnc(&es[i]))
		}
		p.handed = append(p.handed, func() {
			for i := range es {
				scribble(&es[i])
			}
		})
		return M{"err": 0, "es": out}
	case "dec":
		return toCps(p.tk.Decode(s.Ids, s.Skip == 1))
	case "decbatch":
		ts := p.tk.DecodeBatch(s.Idss, s.Skip == 1)
		out := cpsList(ts)
		p.handed = append(p.handed, func() {
			for i := range ts {
				ts[i] = "!"
			}
		})
		return out
	case "list":
		all, model, special := p.tk.GetVocab(true), p.tk.GetVocab(false), p.tk.GetSpecialTokens()
		out := M{"all": byId(all), "model": byId(model),
			"sizes": []int{p.tk.GetVocabSize(false), p.tk.GetVocabSize(true)}, "special": cpsList(special)}
		p.handed = append(p.handed, func() {
			for _, v := range []map[string]int{all, model} {
				for t := range v {
					v[t] += 100
					break
				}
				v["zz!"] = 1000
			}
			for i := range special {
				special[i] = "!"
			}
		})
		return out
	case "look":
		ids, toks := [][]int{}, [][]cps{}
		for _, t := range parse[[]cps](s.Toks) {
			if id, ok := p.tk.TokenToId(t.str()); ok {
				ids = append(ids, []int{id})
			} else {
				ids = append(ids, []int{})
			}
		}
		for _, id := range s.Ids {
			if t, ok := p.tk.IdToToken(id); ok {
				toks = append(toks, []cps{toCps(t)})
			} else {
				toks = append(toks, []cps{})
			}
		}
		return M{"ids": ids, "toks": toks}
	case "add":
		return p.add(addJ{parse[[]addedTok](s.Toks), s.Special}, alt)
	case "model":
		p.c.M = s.P
		p.tk.WithModel(makeModel(s.P, alt))
	case "norm":
		p.norm(parse[[]*nrm](s.P), alt)
	case "pre":
		p.pre(parse[[]*pre](s.P), alt)
	case "post":
		p.post(parse[[]procJ](s.P))
	case "trunc":
		p.trunc(parse[[]truncJ](s.P))
	case "pad":
		p.pad(parse[[]padsJ](s.P))
	case "decoder":
		p.decoder(parse[[]*dec](s.P), alt)
	case "mangle":
		for _, f := range p.handed {
			f()
		}
		p.handed = nil
	default:
		check(fmt.Errorf("pipeline step %q", s.A))
	}
	return 0
}

func runPipe(raw json.RawMessage) any {
	c := parse[struct {
		C     pipeJ      `json:"c"`
		Steps []pipeStep `json:"steps"`
	}](raw)
	alt := len(c.Steps) + len(c.C.M)%7 + len(c.C.Added)
	p := newPipeline(c.C, alt)
	obs := []any{}
	for i, s := range c.Steps {
		o := guarded(func() any { return p.do(s, alt+i) })
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

// ---- random tokenizers

// a tokenizer for texts like t, and texts that mean something to it
type randPipe struct {
	r     *rand.Rand
	t     cps
	c     M
	cands []cps
	ids   int // more than the ids there are
	// for other models
	letters []int
	adds    bool
	c2      M
}

func valid(t cps) cps {
	out := cps{}
	for _, c := range t {
		if c >= 0 && c != 0xfffd {
			out = append(out, c)
		}
	}
	return out
}

func (x *randPipe) randTrunc() []M {
	return []M{{"max": pick(x.r, 1+x.r.Intn(far(6)), 3+x.r.Intn(far(10)), 40), "strat": pick(x.r, 0, 0, 0, 1, 2), "stride": pick(x.r, 0, 0, 1, 2, x.r.Intn(far(3)))}}
}

func (x *randPipe) randPad() []M {
	return []M{{"target": pick(x.r, -1, -1, x.r.Intn(far(12))), "p": M{"id": 7000 + x.r.Intn(2), "ty": x.r.Intn(3), "tk": cps{'[', 'P', ']'}, "left": x.r.Intn(2)}}}
}

func (x *randPipe) randPost() []M { return []M{genProc(x.r, 0)} }

func newRandPipe(r *rand.Rand, max int) *randPipe {
	x := &randPipe{r: r, t: valid(randText(r, max))}
	t := x.t
	norm, pres := []M{}, []M{}
	if r.Intn(2) == 0 {
		norm = append(norm, randNorm(r, t, 1))
	}
	letters := append([]int{}, t...)
	if len(letters) > 5 {
		r.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
		letters = letters[:5]
	}
	letters = append(letters, pick(r, int('a'), 'b', ' '), 'A')
	switch r.Intn(6) {
	case 0:
	case 1, 2:
		pres = append(pres, M{"k": "bl", "prefix": r.Intn(2), "trim": r.Intn(2)})
		ls := []int{}
		for _, l := range letters {
			for _, b := range []byte(cps{l}.str()) {
				ls = append(ls, toCps(pretokenizer.BytesChar[b])[0])
			}
		}
		letters = ls
	default:
		pres = append(pres, randPre(r, t, 1))
		if pres[0]["k"] == "meta" {
			letters = append(letters, pres[0]["s"].(cps)...)
		}
	}
	m, parts := x.model(letters)
	x.letters = letters
	added := []M{}
	for j := r.Intn(3); j > 0; j-- {
		added = append(added, x.randAdd())
	}
	x.cands = append(x.cands, cps{})
	for _, p := range parts {
		if len(valid(p)) == len(p) {
			x.cands = append(x.cands, p)
		}
	}
	x.cands = append(x.cands, t)
	x.ids = 12 + len(parts)*2
	decs := []M{}
	if r.Intn(3) > 0 {
		decs = append(decs, randDec(r, t, 1, true))
	}
	x.c = M{"m": m, "added": added, "norm": norm, "pre": pres, "post": []M{}, "trunc": []M{}, "pad": []M{}, "dec": decs}
	return x
}

// model is some model, with what its vocabulary is made of
func (x *randPipe) model(letters []int) (M, []cps) {
	var m M
	var parts []cps
	r, t := x.r, x.t
	kind := pick(r, "wp", "wl", "bpe", "uni", "gram")
	switch kind {
	case "wp", "wl":
		m, parts = randWordModelOver(r, kind, letters)
	case "bpe":
		m, parts = randBpe(r, letters, r.Intn(10))
		m["cap"] = pick(r, bpe.DefaultCacheCapacity, bpe.DefaultCacheCapacity, 0, 2)
	case "uni":
		m, parts = randUnigramOver(r, letters, func() int { return 100 - r.Intn(4000) })
	case "gram":
		vocab := []M{}
		seen := map[string]bool{}
		for j := r.Intn(5); j > 0; j-- {
			c := append(subText(r, t, 3), pick[int](r, 'a', 'b', 'c'))
			if !seen[c.str()] {
				seen[c.str()] = true
				vocab = append(vocab, M{"t": c, "id": len(vocab)})
				parts = append(parts, c)
			}
		}
		m = M{"vocab": vocab, "w": 1 + r.Intn(3)}
	}
	m["k"] = kind
	return m, parts
}

// otherModel is one to use in place of that there is: with the same vocabulary,
// unless there are no added tokens
func (x *randPipe) otherModel() M {
	r, m := x.r, M{}
	if !x.adds && r.Intn(2) == 0 {
		m, parts := x.model(x.letters)
		for _, p := range parts {
			if len(valid(p)) == len(p) {
				x.cands = append(x.cands, p)
			}
		}
		x.c2 = m
		return m
	}
	if x.c2 == nil {
		x.c2 = x.c["m"].(M)
	}
	for k, v := range x.c2 {
		m[k] = v
	}
	switch m["k"] {
	case "wp", "wl":
		m["k"] = pick(r, "wp", "wl")
		m["max"] = pick(r, 100, 0, 2, 4)
		if r.Intn(2) == 0 {
			m["pre"] = pick(r, cps{'#', '#'}, cps{}, cps{x.letters[0]})
		}
	case "bpe":
		ms := reflect.ValueOf(m["merges"])
		m["merges"] = ms.Slice(0, r.Intn(ms.Len()+1)).Interface()
		m["cap"] = pick(r, bpe.DefaultCacheCapacity, 0, 2)
	case "uni":
		v := append([]M{}, m["vocab"].([]M)...)
		for i := range v {
			v[i] = M{"t": v[i]["t"], "s": 100 - r.Intn(4000)}
		}
		m["vocab"], m["fb"], m["fuse"] = v, r.Intn(2), r.Intn(2)
	case "gram":
		m["w"] = 1 + r.Intn(3)
	}
	x.c2 = m
	return m
}

func (x *randPipe) randAdd() M {
	x.adds = true

	toks := []M{}
	for k := x.r.Intn(far(3)); k > 0; k-- {
		a := randAdded(x.r, x.t)
		x.cands = append(x.cands, a["c"].(cps))
		toks = append(toks, a)
	}
	return M{"toks": toks, "special": x.r.Intn(2)}
}

// text is made of characters that are in the table only
func (x *randPipe) text() cps {
	in := map[int]bool{}
	for _, l := range letters() {
		in[int(l)] = true
	}
	out := cps{}
	for _, c := range mixText(x.r, x.t, x.cands) {
		if in[c] {
			out = append(out, c)
		}
	}
	return out
}

func (x *randPipe) seq() M {
	if x.r.Intn(3) > 0 {
		return M{"k": "raw", "s": x.text()}
	}
	ws := []cps{}
	for i := x.r.Intn(4); i > 0; i-- {
		ws = append(ws, x.text())
	}
	return M{"k": "words", "s": ws}
}

func (x *randPipe) input() []M {
	if x.r.Intn(3) > 0 {
		return []M{x.seq()}
	}
	return []M{x.seq(), x.seq()}
}

func (x *randPipe) someIds() []int {
	ids := []int{}
	for i := x.r.Intn(far(7)); i > 0; i-- {
		ids = append(ids, x.r.Intn(x.ids)-1)
	}
	return ids
}

func (x *randPipe) query() M {
	r := x.r
	switch r.Intn(9) {
	case 0:
		return M{"a": "tok", "in": []M{{"k": "raw", "s": x.text()}}, "add": r.Intn(2)}
	case 1:
		ins := [][]M{}
		for i := r.Intn(far(4)); i > 0; i-- {
			ins = append(ins, x.input())
		}
		return M{"a": "batch", "ins": ins, "add": r.Intn(2)}
	case 2:
		if r.Intn(3) == 0 {
			rows := [][]int{}
			for i := r.Intn(far(4)); i > 0; i-- {
				rows = append(rows, x.someIds())
			}
			return M{"a": "decbatch", "idss": rows, "skip": r.Intn(2)}
		}
		return M{"a": "dec", "ids": x.someIds(), "skip": r.Intn(2)}
	case 3:
		return M{"a": "list"}
	case 4:
		return M{"a": "look", "toks": x.cands, "ids": x.someIds()}
	case 5:
		return M{"a": "both", "in": x.input(), "add": r.Intn(2)}
	}
	return M{"a": "enc", "in": x.input(), "add": r.Intn(2), "chars": r.Intn(2)}
}

func (x *randPipe) setter() M {
	r := x.r
	some := func(p []M) []M {
		if r.Intn(4) == 0 {
			return []M{}
		}
		return p
	}
	kinds := 9
	if x.letters == nil {
		kinds = 8 // a ready-made tokenizer keeps its model
	}
	switch r.Intn(kinds) {
	case 8:
		return M{"a": "model", "p": x.otherModel()}
	case 0:
		return M{"a": "norm", "p": some([]M{randNorm(r, x.t, 1)})}
	case 1:
		return M{"a": "pre", "p": some([]M{randPre(r, x.t, 1)})}
	case 2:
		return M{"a": "post", "p": some(x.randPost())}
	case 3:
		return M{"a": "trunc", "p": some(x.randTrunc())}
	case 4:
		return M{"a": "pad", "p": some(x.randPad())}
	case 5:
		return M{"a": "decoder", "p": some([]M{randDec(r, x.t, 1, true)})}
	}
	a := x.randAdd()
	return M{"a": "add", "toks": a["toks"], "special": a["special"]}
}

func init() {
	runners["pipe"] = runPipe
	gen := func(step func(x *randPipe) []M) generator {
		return func(r *rand.Rand, n int, emit func(any)) {
			for i := 0; i < n; i++ {
				x := newRandPipe(r, 10)
				emit(M{"op": "pipe", "c": x.c, "steps": step(x)})
			}
		}
	}
	generators["T01"] = gen(func(x *randPipe) []M {
		r := x.r
		if r.Intn(3) > 0 {
			x.c["post"] = x.randPost()
		}
		if r.Intn(2) == 0 {
			x.c["trunc"] = x.randTrunc()
		}
		if r.Intn(2) == 0 {
			x.c["pad"] = x.randPad()
		}
		steps := []M{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			steps = append(steps, M{"a": "enc", "in": x.input(), "add": pick(r, 0, 1, 1), "chars": pick(r, 0, 0, 1)})
		}
		if r.Intn(3) == 0 {
			ins := [][]M{}
			for i := 1 + r.Intn(far(3)); i > 0; i-- {
				ins = append(ins, x.input())
			}
			steps = append(steps, M{"a": "batch", "ins": ins, "add": r.Intn(2)})
		}
		return steps
	})
	generators["T02"] = gen(func(x *randPipe) []M {
		r := x.r
		if r.Intn(4) == 0 {
			x.c["post"] = x.randPost()
		}
		if r.Intn(6) == 0 {
			x.c["trunc"] = x.randTrunc()
		}
		steps := []M{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			steps = append(steps, M{"a": "both", "in": x.input(), "add": r.Intn(2)})
		}
		return steps
	})
	generators["T04"] = gen(func(x *randPipe) []M {
		r := x.r
		if r.Intn(2) == 0 {
			x.c["post"] = x.randPost()
		}
		steps, asked := []M{}, []M{}
		for i := 4 + r.Intn(6); i > 0; i-- {
			switch k := r.Intn(10); {
			case k < 4:
				s := x.query()
				asked = append(asked, s)
				steps = append(steps, s)
			case k < 6 && len(asked) > 0: // the same again
				steps = append(steps, pick(r, asked...))
			case k < 8:
				steps = append(steps, x.setter())
			default:
				steps = append(steps, M{"a": "mangle"})
			}
		}
		for _, s := range asked[:min(2, len(asked))] {
			steps = append(steps, s)
		}
		// a text that can always be encoded
		return append(steps, M{"a": "enc", "in": []M{{"k": "raw", "s": cps{}}}, "add": r.Intn(2), "chars": 0}, M{"a": "list"})
	})
}

// a tokenizer about which little but what surrounds the model is interesting
func newPlainPipe(r *rand.Rand) *randPipe {
	x := &randPipe{r: r, t: valid(randText(r, 12))}
	x.cands = []cps{{}, {'a'}, {'a', 'b', ' '}, x.t}
	pres := []M{}
	if r.Intn(2) == 0 {
		pres = append(pres, M{"k": "ws"})
	}
	x.c = M{"m": M{"k": "gram", "vocab": []M{}, "w": 1 + r.Intn(2)}, "added": []M{}, "norm": []M{}, "pre": pres,
		"post": []M{}, "trunc": []M{}, "pad": []M{}, "dec": []M{}}
	return x
}

func init() {
	gen := func(prop string) generator {
		return func(r *rand.Rand, n int, emit func(any)) {
			for i := 0; i < n; i++ {
				x := newPlainPipe(r)
				if prop == "E04" || r.Intn(2) == 0 {
					x.c["post"] = x.randPost()
				}
				if prop == "E01" || (prop == "E04" && r.Intn(4) == 0) {
					x.c["trunc"] = x.randTrunc()
				}
				if prop == "E02" {
					x.c["pad"] = x.randPad()
				}
				steps := []M{}
				for j := 1 + r.Intn(3); j > 0; j-- {
					steps = append(steps, M{"a": "enc", "in": x.input(), "add": pick(r, 0, 1, 1), "chars": 0})
				}
				if prop != "E04" && r.Intn(2) == 0 {
					ins := [][]M{}
					for j := 1 + r.Intn(far(4)); j > 0; j-- {
						ins = append(ins, x.input())
					}
					steps = append(steps, M{"a": "batch", "ins": ins, "add": r.Intn(2)})
				}
				if r.Intn(3) == 0 {
					switch prop {
					case "E01":
						steps = append(steps, M{"a": "trunc", "p": x.randTrunc()}, steps[0])
					case "E02":
						steps = append(steps, M{"a": "pad", "p": x.randPad()}, steps[0])
					}
				}
				emit(M{"op": "pipe", "c": x.c, "steps": steps})
			}
		}
	}
	for _, p := range []string{"E01", "E02", "E04"} {
		generators[p+"pipe"] = gen(p)
	}
}
