package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"errors"
	"io"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing/iotest"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretrained"
)

// Configurations (see spec/Config.tla): every value of a document is an object
// with one field, which says of what kind it is.

func plainValue(raw json.RawMessage) any {
	v := parse[map[string]json.RawMessage](raw)
	for k, x := range v {
		switch k {
		case "x":
			return parse[cps](x).str()
		case "n":
			return parse[string](x)
		case "re":
			return parse[*node](x).regex()
		case "i":
			return parse[int](x)
		case "q":
			return float64(parse[int](x)) / 4
		case "b":
			return parse[int](x) == 1
		case "z":
			return nil
		case "sm":
			return base64.StdEncoding.EncodeToString(charsmap(parse[[]rule](x), len(x)))
		case "smbad":
			bad := parse[[2]json.RawMessage](x)
			data := charsmap(parse[[]rule](bad[0]), len(x))
			switch parse[int](bad[1]) {
			case 0:
				data = nil
			case 1:
				data = data[:3]
			case 2: // a part of the array only
				data = data[:6]
			case 3: // half a unit
				data[0]++
			case 4: // no unit
				data = data[:4]
				copy(data, "\x00\x00\x00\x00")
			case 5:
				return base64.StdEncoding.EncodeToString(data) + "!"
			}
			return base64.StdEncoding.EncodeToString(data)
		case "l":
			out := []any{}
			for _, y := range parse[[]json.RawMessage](x) {
				out = append(out, plainValue(y))
			}
			return out
		case "o":
			out := map[string]any{}
			if string(x) == "[]" { // as TLC writes it
				return out
			}
			for key, y := range parse[map[string]json.RawMessage](x) {
				out[key] = plainValue(y)
			}
			return out
		case "m":
			out := map[string]any{}
			for _, e := range parse[[][2]json.RawMessage](x) {
				out[parse[cps](e[0]).str()] = plainValue(e[1])
			}
			return out
		}
	}
	check(errors.New("document value " + string(raw)))
	return nil
}

func plainText(v any, alt int) []byte {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(alt%2 == 0)
	if alt%3 == 0 {
		e.SetIndent("", "  ")
	}
	check(e.Encode(v))
	return bytes.TrimSpace(b.Bytes())
}

func runLoad(raw json.RawMessage) any {
	c := parse[struct {
		Doc   json.RawMessage `json:"doc"`
		Steps []pipeStep      `json:"steps"`
	}](raw)
	alt := len(c.Doc)%30 + len(c.Steps)
	var text []byte
	missing := false
	doc := parse[map[string]json.RawMessage](c.Doc)
	if x, ok := doc["cut"]; ok {
		cut := parse[[2]json.RawMessage](x)
		text = plainText(plainValue(cut[0]), alt)
		text = text[:parse[int](cut[1])%len(text)]
	} else if _, missing = doc["none"]; !missing {
		text = plainText(plainValue(c.Doc), alt)
	}
	var tk *tokenizer.Tokenizer
	obs := []any{}
	o := guarded(func() any {
		var err error
		if missing || alt%4 == 0 {
			dir, e := os.MkdirTemp("", "config")
			check(e)
			defer os.RemoveAll(dir)
			name := filepath.Join(dir, "tokenizer.json")
			if !missing {
				check(os.WriteFile(name, text, 0o644))
			}
			tk, err = pretrained.FromFile(name)
		} else {
			var r io.Reader = bytes.NewReader(text)
			switch alt % 4 {
			case 1:
				r = strings.NewReader(string(text))
			case 2:
				r = iotest.OneByteReader(r)
			}
			tk, err = pretrained.FromReader(r)
		}
		// neither or both
		if (err == nil) != (tk != nil) {
			return M{"err": 7}
		}
		return M{"err": b2i(err != nil)}
	})
	obs = append(obs, o)
	if o["panic"] != nil || tk == nil {
		return M{"obs": obs}
	}
	p := &pipeline{tk: tk, loaded: true}
	for i, s := range c.Steps {
		o := guarded(func() any { return p.do(s, alt+i) })
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

// ---- writing configurations down

type writer struct {
	r  *rand.Rand
	no bool // it cannot be written down
}

func vx(t cps) M            { return M{"x": append(cps{}, t...)} }
func vn(s string) M         { return M{"n": s} }
func vi(i int) M            { return M{"i": i} }
func vb(i int) M            { return M{"b": i} }
func vl(l []M) M            { return M{"l": append([]M{}, l...)} }
func vo(o M) M              { return M{"o": o} }
func sameCps(a, b cps) bool { return a.str() == b.str() }

// opt is an option that may be left out if it has the value it has by default
func (w *writer) opt(o M, key string, v M, def bool) {
	if def && w.r.Intn(2) == 0 {
		if w.r.Intn(2) == 0 {
			o[key] = M{"z": 0}
		}
		return
	}
	o[key] = v
}

func (w *writer) pattern(p *pat) M {
	switch p.K {
	case "str":
		return vo(M{"String": vx(p.S)})
	case "rune":
		return vo(M{"String": vx(cps{parse[int](p.C)})})
	case "re":
		return vo(M{"Regex": M{"re": p.R.tree()}})
	}
	w.no = true
	return vo(M{})
}

// tree is the expression as it was parsed
func (n *node) tree() M {
	out := M{"n": n.N}
	switch n.N {
	case "set":
		out["cs"], out["neg"] = append(cps{}, n.Cs...), n.Neg
	case "cls":
		out["c"], out["neg"] = n.C, n.Neg
	case "lit":
		out["s"] = append(cps{}, n.S...)
	}
	if n.L != nil {
		out["l"] = n.L.tree()
	}
	if n.R != nil {
		out["r"] = n.R.tree()
	}
	return out
}

var formNames = []string{"", "NFC", "NFD", "NFKC", "NFKD"}

func (w *writer) norm(p *nrm) M {
	switch p.K {
	case "nf":
		return vo(M{"type": vn(formNames[p.F])})
	case "lower":
		return vo(M{"type": vn("Lowercase")})
	case "accents":
		return vo(M{"type": vn("StripAccents")})
	case "strip":
		o := M{"type": vn(pick(w.r, "Strip", "StripNormalizer"))}
		w.opt(o, "strip_left", vb(p.L), p.L == 0)
		w.opt(o, "strip_right", vb(p.R), p.R == 0)
		return vo(o)
	case "prepend":
		return vo(M{"type": vn("Prepend"), "prepend": vx(p.S)})
	case "replace":
		return vo(M{"type": vn("Replace"), "pattern": w.pattern(p.P), "content": vx(p.S)})
	case "bert":
		o := M{"type": vn("BertNormalizer")}
		w.opt(o, "clean_text", vb(p.Clean), p.Clean == 0)
		w.opt(o, "handle_chinese_chars", vb(p.Chinese), p.Chinese == 0)
		w.opt(o, "strip_accents", vb(p.Accents), p.Accents == p.Lower)
		w.opt(o, "lowercase", vb(p.Lower), p.Lower == 0)
		return vo(o)
	case "spm":
		return vo(M{"type": vn("Precompiled"), "precompiled_charsmap": M{"sm": p.Map}})
	case "seq":
		l := []M{}
		for _, q := range p.Ps {
			l = append(l, w.norm(q))
		}
		return vo(M{"type": vn("Sequence"), "normalizers": vl(l)})
	}
	w.no = true
	return vo(M{})
}

var behaviours = []string{"Removed", "Isolated", "MergedWithPrevious", "MergedWithNext", "Contiguous"}

func (w *writer) byteLevel(prefix, trim int) M {
	o := M{"type": vn("ByteLevel")}
	w.opt(o, "add_prefix_space", vb(prefix), prefix == 0)
	w.opt(o, "trim_offsets", vb(trim), trim == 0)
	return vo(o)
}

func (w *writer) meta(s cps, scheme int) M {
	o := M{"type": vn("Metaspace")}
	w.opt(o, "replacement", vx(s), len(s) == 0)
	if scheme != 1 && w.r.Intn(2) == 0 {
		w.opt(o, "add_prefix_space", vb(scheme/2), scheme == 0)
		return vo(o)
	}
	o["prepend_scheme"] = vn([][]string{{"never", "Never"}, {"first", "First"}, {"always", "ALWAYS"}}[scheme][w.r.Intn(2)])
	if w.r.Intn(3) == 0 {
		o["add_prefix_space"] = vb(w.r.Intn(2))
	}
	return vo(o)
}

func (w *writer) pre(p *pre) M {
	switch p.K {
	case "ws":
		return vo(M{"type": vn("Whitespace")})
	case "wssplit":
		return vo(M{"type": vn("WhitespaceSplit")})
	case "bert":
		return vo(M{"type": vn("BertPreTokenizer")})
	case "script":
		return vo(M{"type": vn("UnicodeScripts")})
	case "punct":
		return vo(M{"type": vn("Punctuation"), "behavior": vn(behaviours[p.B])})
	case "digits":
		return vo(M{"type": vn("Digits"), "individual_digits": vb(p.Ind)})
	case "delim":
		return vo(M{"type": vn("Delimiter"), "delimiter": vx(cps{p.C})})
	case "split":
		q := parse[pat](p.P)
		return vo(M{"type": vn("Split"), "pattern": w.pattern(&q), "behavior": vn(behaviours[p.B]), "invert": vb(p.Inv)})
	case "meta":
		return w.meta(p.S, p.Scheme)
	case "bl":
		return w.byteLevel(p.Prefix, p.Trim)
	case "seq":
		l := []M{}
		for _, q := range p.Ps {
			l = append(l, w.pre(q))
		}
		return vo(M{"type": vn("Sequence"), "pretokenizers": vl(l)})
	}
	w.no = true
	return vo(M{})
}

func (w *writer) pieces(ps []pieceJ, special map[string]M) M {
	l := []M{}
	for _, q := range ps {
		if q.K == "seq" {
			l = append(l, vo(M{"Sequence": vo(M{"id": vn([]string{"A", "B"}[q.S]), "type_id": vi(q.Ty)})}))
			continue
		}
		name := cps{'s', 'p'}
		ids, toks := []M{}, []M{}
		for _, t := range q.Toks {
			ids = append(ids, vi(t.Id))
			toks = append(toks, vx(t.Tk))
			name = append(name, '0'+t.Id%10)
		}
		special[name.str()] = vo(M{"id": vx(name), "ids": vl(ids), "tokens": vl(toks)})
		l = append(l, vo(M{"SpecialToken": vo(M{"id": vx(name), "type_id": vi(q.Ty)})}))
	}
	return vl(l)
}

func (w *writer) post(p procJ) M {
	two := func(t spTokJ) M { return vl([]M{vx(t.Tk), vi(t.Id)}) }
	switch p.K {
	case "none":
		return M{"z": 0}
	case "bert":
		return vo(M{"type": vn("BertProcessing"), "sep": two(p.Sep), "cls": two(p.Cls)})
	case "roberta":
		return vo(M{"type": vn("RobertaProcessing"), "sep": two(p.Sep), "cls": two(p.Cls), "trim_offsets": vb(p.Trim), "add_prefix_space": vb(p.Prefix)})
	case "bytelevel":
		return w.byteLevel(p.Prefix, p.Trim)
	case "tpl":
		special := map[string]M{}
		o := M{"type": vn("TemplateProcessing"), "single": w.pieces(p.Single, special), "pair": w.pieces(p.Pair, special)}
		names := []string{}
		for name := range special {
			names = append(names, name)
		}
		sort.Strings(names)
		m := []any{}
		for _, name := range names {
			m = append(m, []any{toCps(name), special[name]})
		}
		if len(m) > 0 || w.r.Intn(2) == 0 {
			o["special_tokens"] = M{"m": m}
		}
		return vo(o)
	case "sequ":
		l := []M{}
		for _, q := range p.Ps {
			l = append(l, w.post(q))
		}
		return vo(M{"type": vn("Sequence"), "processors": vl(l)})
	}
	w.no = true
	return vo(M{})
}

func (w *writer) dec(d *dec) M {
	switch d.K {
	case "bpe":
		return vo(M{"type": vn("BPE"), "suffix": vx(d.S)})
	case "wordpiece":
		return vo(M{"type": vn("WordPiece"), "prefix": vx(d.S), "cleanup": vb(d.Cl)})
	case "ctc":
		return vo(M{"type": vn("CTC"), "pad_token": vx(d.S), pick(w.r, "word_delimiter_token", "word_delimiter"): vx(d.W), "cleanup": vb(d.Cl)})
	case "meta":
		scheme := 0
		if d.Pre == 1 {
			scheme = 1 + w.r.Intn(2)
		}
		return w.meta(d.S, scheme)
	case "fuse":
		return vo(M{"type": vn("Fuse")})
	case "bytes":
		return vo(M{"type": vn("ByteFallback")})
	case "bytelevel":
		return w.byteLevel(w.r.Intn(2), w.r.Intn(2))
	case "strip":
		return vo(M{"type": vn("Strip"), "content": vx(d.S), "start": vi(d.A), "stop": vi(d.Z)})
	case "replace":
		return vo(M{"type": vn("Replace"), "pattern": w.pattern(d.P), "content": vx(d.W)})
	case "seq":
		l := []M{}
		for _, x := range d.Ds {
			l = append(l, w.dec(x))
		}
		return vo(M{"type": vn("Sequence"), "decoders": vl(l)})
	}
	w.no = true
	return vo(M{})
}

func (w *writer) vocab(es []entry) M {
	m := []any{}
	for _, e := range es {
		m = append(m, []any{e.T, vi(e.Id)})
	}
	return M{"m": m}
}

func (w *writer) model(raw json.RawMessage) (M, string) {
	switch k := parse[struct {
		K string `json:"k"`
	}](raw).K; k {
	case "wp":
		m := parse[wordModel](raw)
		o := M{"type": vn("WordPiece"), "vocab": w.vocab(m.Vocab)}
		w.opt(o, "unk_token", vx(m.Unk), m.Unk.str() == "[UNK]")
		w.opt(o, "continuing_subword_prefix", vx(m.Pre), m.Pre.str() == "##")
		w.opt(o, "max_input_chars_per_word", vi(m.Max), m.Max == 100)
		return o, "WordPiece"
	case "wl":
		m := parse[wordModel](raw)
		o := M{"type": vn("WordLevel"), "vocab": w.vocab(m.Vocab)}
		w.opt(o, "unk_token", vx(m.Unk), len(m.Unk) == 0 || m.Unk.str() == "<unk>")
		return o, "WordLevel"
	case "bpe":
		m := parse[bpeModel](raw)
		if !m.ordered() || !validTexts(m.Vocab) {
			w.no = true
			return M{}, ""
		}
		es, ls := []entry{}, []M{}
		for i, t := range m.Vocab {
			es = append(es, entry{T: t, Id: i})
		}
		how := w.r.Intn(3)
		for _, l := range m.lines() {
			if ab := strings.Split(l, " "); how == 0 || how == 1 && w.r.Intn(2) == 0 {
				ls = append(ls, vl([]M{vx(toCps(ab[0])), vx(toCps(ab[1]))}))
			} else {
				ls = append(ls, vx(toCps(l)))
			}
		}
		o := M{"type": vn("BPE"), "vocab": w.vocab(es), "merges": vl(ls)}
		if len(m.Unk) > 0 {
			o["unk_token"] = vx(m.Unk[0])
		} else {
			w.opt(o, "unk_token", M{"z": 0}, true)
		}
		w.opt(o, "continuing_subword_prefix", vx(m.Pre), len(m.Pre) == 0)
		w.opt(o, "end_of_word_suffix", vx(m.Suf), len(m.Suf) == 0)
		w.opt(o, "dropout", M{"z": 0}, m.Drop == 0)
		if m.Drop > 0 {
			o["dropout"] = M{"q": []int{0, 2, 4}[m.Drop]}
		} else if w.r.Intn(20) == 0 {
			o["dropout"] = M{"q": pick(w.r, -1, 0, 5)}
		}
		return o, "BPE"
	case "uni":
		m := parse[uniModel](raw)
		l := []M{}
		for _, e := range m.Vocab {
			l = append(l, vl([]M{vx(e.T), M{"q": e.S}}))
		}
		o := M{"type": vn("Unigram"), "vocab": vl(l)}
		if len(m.Unk) > 0 {
			o["unk_id"] = vi(m.Unk[0])
		} else {
			w.opt(o, "unk_id", M{"z": 0}, true)
		}
		w.opt(o, "fuse_unk", vb(m.Fuse), m.Fuse == 1)
		w.opt(o, "byte_fallback", vb(m.Fb), m.Fb == 0)
		return o, "Unigram"
	}
	w.no = true
	return M{}, ""
}

// document is the configuration c, if it can be one.
func (w *writer) document(c pipeJ) M {
	model, typ := w.model(c.M)
	d := M{"version": vn("1.0"), "model": vo(model)}
	part := func(key string, on bool, v func() M) {
		if on {
			d[key] = v()
		} else if w.r.Intn(2) == 0 {
			d[key] = M{"z": 0}
		}
	}
	part("normalizer", len(c.Norm) > 0, func() M { return w.norm(c.Norm[0]) })
	part("pre_tokenizer", len(c.Pre) > 0, func() M { return w.pre(c.Pre[0]) })
	part("post_processor", len(c.Post) > 0, func() M { return w.post(c.Post[0]) })
	part("decoder", len(c.Dec) > 0, func() M { return w.dec(c.Dec[0]) })
	part("truncation", len(c.Trunc) > 0, func() M {
		t := c.Trunc[0]
		o := M{"max_length": vi(t.Max), "stride": vi(t.Stride), "strategy": vn([]string{"LongestFirst", "OnlyFirst", "OnlySecond"}[t.Strat])}
		w.opt(o, "direction", vn("Right"), true)
		return vo(o)
	})
	part("padding", len(c.Pad) > 0, func() M {
		p := c.Pad[0]
		o := M{"pad_token": vx(p.P.Tk)}
		switch {
		case p.Target < 0:
			o["strategy"] = vn("BatchLongest")
		case w.r.Intn(3) == 0:
			o["strategy"], o["size"] = vn("Fixed"), vi(p.Target)
		default:
			o["strategy"] = vo(M{"Fixed": vi(p.Target)})
		}
		w.opt(o, "pad_id", vi(p.P.Id), p.P.Id == 0)
		w.opt(o, "pad_type_id", vi(p.P.Ty), p.P.Ty == 0)
		w.opt(o, "direction", vn(pick(w.r, "Left", "left")), false)
		if p.P.Left == 0 {
			w.opt(o, "direction", vn(pick(w.r, "Right", "right")), true)
			if w.r.Intn(4) == 0 {
				delete(o, "direction")
			}
		}
		return vo(o)
	})
	n := 0
	for _, a := range c.Added {
		n += len(a.Toks)
	}
	part("added_tokens", n > 0, func() M {
		plain := c
		plain.Norm, plain.Pre, plain.Post, plain.Trunc, plain.Pad, plain.Dec = nil, nil, nil, nil, nil, nil
		tk := newPipeline(plain, 0).tk
		l := []M{}
		for _, a := range c.Added {
			for _, t := range a.Toks {
				id, _ := tk.TokenToId(t.C.str())
				o := M{"id": vi(id), "content": vx(t.C)}
				w.opt(o, "special", vb(a.Special), a.Special == 0)
				w.opt(o, "single_word", vb(t.Sw), t.Sw == 0)
				w.opt(o, "lstrip", vb(t.Ls), t.Ls == 0)
				w.opt(o, "rstrip", vb(t.Rs), t.Rs == 0)
				w.opt(o, "normalized", vb(t.Nz), t.Nz == 0)
				l = append(l, vo(o))
			}
		}
		return vl(l)
	})
	// a model without a type is the one its decoder is for
	if len(c.Dec) > 0 {
		guess := "BPE"
		if c.Dec[0].K == "wordpiece" {
			guess = "WordPiece"
		}
		if guess == typ && w.r.Intn(2) == 0 {
			delete(model, "type")
		}
	} else if typ == "BPE" && w.r.Intn(3) == 0 {
		delete(model, "type")
	}
	return vo(d)
}

// ---- documents that are not quite right

type place struct {
	set func(any)
	del func()
	was map[string]any
}

func places(v map[string]any, out *[]place) {
	for kind, x := range v {
		switch kind {
		case "o":
			o := x.(map[string]any)
			keys := []string{}
			for k := range o {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			for _, k := range keys {
				k := k
				*out = append(*out, place{func(y any) { o[k] = y }, func() { delete(o, k) }, o[k].(map[string]any)})
				places(o[k].(map[string]any), out)
			}
		case "l":
			l := x.([]any)
			for i := range l {
				i := i
				*out = append(*out, place{func(y any) { l[i] = y }, nil, l[i].(map[string]any)})
				places(l[i].(map[string]any), out)
			}
		case "m":
			for _, e := range x.([]any) {
				e := e.([]any)
				*out = append(*out, place{func(y any) { e[1] = y }, nil, e[1].(map[string]any)})
				places(e[1].(map[string]any), out)
			}
		}
	}
}

func spoil(r *rand.Rand, doc M) map[string]any {
	var d map[string]any
	check(json.Unmarshal(mustJSON(doc), &d))
	var ps []place
	places(d, &ps)
	// names are telling, and rare
	var named []place
	for _, p := range ps {
		if _, ok := p.was["n"]; ok {
			named = append(named, p)
		}
	}
	p := pick(r, ps...)
	if r.Intn(2) == 0 {
		p = pick(r, named...)
	}
	if x, ok := p.was["sm"]; ok && r.Intn(2) == 0 {
		p.set(M{"smbad": []any{x, r.Intn(6)}})
		return d
	}
	values := []any{M{"z": 0}, M{"i": 3}, M{"b": 1}, M{"x": cps{'q'}}, M{"l": []any{}}, M{"o": M{"zz": M{"i": 0}}}}
	if _, ok := p.was["n"]; ok && r.Intn(3) > 0 {
		p.set(M{"n": pick(r, "Zzyzx", "", "bpe", "Regex", "BertNormalizer", "Sequence", "Fixed", "First", "Left", "Removed", "ByteLevel")})
	} else if p.del != nil && r.Intn(3) == 0 {
		p.del()
	} else {
		p.set(pick(r, values...))
	}
	return d
}

func init() {
	runners["load"] = runLoad
	generators["T05"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; {
			x := newRandPipe(r, 8)
			if r.Intn(3) > 0 {
				x.c["post"] = x.randPost()
			}
			if r.Intn(3) == 0 {
				x.c["trunc"] = x.randTrunc()
			}
			if r.Intn(2) == 0 {
				x.c["pad"] = x.randPad()
			}
			if r.Intn(3) == 0 {
				x.c["pre"] = []M{}
			}
			w := &writer{r: r}
			doc := w.document(parse[pipeJ](mustJSON(x.c)))
			if w.no {
				continue
			}
			i++
			steps := []M{{"a": "enc", "in": x.input(), "add": 1, "chars": 0}, {"a": "dec", "ids": x.someIds(), "skip": r.Intn(2)}, {"a": "list"}}
			for j := 1 + r.Intn(3); j > 0; j-- {
				steps = append(steps, x.query())
			}
			switch r.Intn(8) {
			case 0:
				emit(M{"op": "load", "doc": M{"cut": []any{doc, r.Intn(5000)}}, "steps": []M{}})
			case 1, 2:
				emit(M{"op": "load", "doc": spoil(r, doc), "steps": steps})
			default:
				emit(M{"op": "load", "doc": doc, "steps": steps})
			}
		}
		for _, d := range []M{{"none": 0}, {"z": 0}, {"l": []M{}}, {"x": cps{'q'}}, {"i": 3}, {"b": 1}, {"o": M{}}, {"o": M{"model": M{"z": 0}}}} {
			emit(M{"op": "load", "doc": d, "steps": []M{}})
		}
	}
}
