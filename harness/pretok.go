package main

import (
	"encoding/json"
	"fmt"
	"math/rand"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// pre is a pre-tokenizer.
type pre struct {
	K      string          `json:"k"`
	B      int             `json:"b"`
	Ind    int             `json:"ind"`
	C      int             `json:"c"`
	S      cps             `json:"s"`
	Scheme int             `json:"scheme"`
	Prefix int             `json:"prefix"`
	Trim   int             `json:"trim"`
	P      json.RawMessage `json:"p"`
	Inv    int             `json:"inv"`
	Ps     []*pre          `json:"ps"`
}

func (p *pre) make(alt int) tokenizer.PreTokenizer {
	switch p.K {
	case "ws":
		if alt%2 == 1 {
			return pretokenizer.DefaultWhitespace()
		}
		return pretokenizer.NewWhitespace()
	case "wssplit":
		return pretokenizer.NewWhitespaceSplit()
	case "punct":
		if p.B == 1 && alt%2 == 1 {
			return pretokenizer.DefaultPunctuation()
		}
		return pretokenizer.NewPunctuation(normalizer.SplitDelimiterBehavior(p.B))
	case "digits":
		if p.Ind == 0 && alt%2 == 1 {
			return pretokenizer.DefaultDigits()
		}
		return pretokenizer.NewDigits(p.Ind == 1)
	case "delim":
		return pretokenizer.NewCharDelimiterSplit(rune(p.C))
	case "bert":
		return pretokenizer.NewBertPreTokenizer()
	case "split":
		q := parse[pat](p.P)
		return pretokenizer.NewSplit(q.make(), normalizer.SplitDelimiterBehavior(p.B), p.Inv == 1)
	case "meta":
		s := p.S.str()
		switch {
		case alt%3 == 1 && p.Scheme != 1:
			return pretokenizer.NewMetaspace(s, p.Scheme == 2)
		case alt%3 == 2 && p.Scheme == 2:
			m := pretokenizer.DefaultMetaspace()
			m.SetReplacement(s)
			return m
		}
		return pretokenizer.NewMetaspaceWithScheme(s, []pretokenizer.PrependScheme{pretokenizer.Never, pretokenizer.First, pretokenizer.Always}[p.Scheme])
	case "bl":
		return p.byteLevel()
	case "script":
		return pretokenizer.NewUnicodeScript()
	case "seq":
		var ps []tokenizer.PreTokenizer
		for i, q := range p.Ps {
			ps = append(ps, q.make(alt+i))
		}
		return pretokenizer.NewSequence(ps)
	}
	check(fmt.Errorf("pre-tokenizer %q", p.K))
	return nil
}

func (p *pre) byteLevel() *pretokenizer.ByteLevel {
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(p.Prefix == 1)
	bl.SetTrimOffsets(p.Trim == 1)
	return bl
}

type preStep struct {
	A      string          `json:"a"`
	P      json.RawMessage `json:"p"`
	W      int             `json:"w"`
	Drop   int             `json:"drop"`
	Type   int             `json:"type"`
	Word   int             `json:"word"`
	Chars  int             `json:"chars"`
	Trim   int             `json:"trim"`
	Prefix int             `json:"prefix"`
	Cuts   []int           `json:"cuts"`
	Toks   []cps           `json:"toks"`
}

type preCase struct {
	Text  cps       `json:"text"`
	Norm  []*nrm    `json:"norm"`
	Steps []preStep `json:"steps"`
}

func viewTokens(ts []tokenizer.Token) []M {
	out := []M{}
	for _, t := range ts {
		out = append(out, M{"id": t.Id, "v": toCps(t.Value), "o": []int{t.Offsets[0], t.Offsets[1]}})
	}
	return out
}

func viewSplits(pt *tokenizer.PreTokenizedString) []M {
	out := []M{}
	a := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte)
	b := pt.GetSplits(normalizer.OriginalTarget, tokenizer.Char)
	c := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Byte)
	d := pt.GetSplits(normalizer.NormalizedTarget, tokenizer.Char)
	for i := range a {
		out = append(out, M{"v": toCps(a[i].Value), "o": a[i].Offsets, "oc": b[i].Offsets, "nb": c[i].Offsets, "nc": d[i].Offsets,
			"tk": b2i(a[i].Tokens != nil), "toks": viewTokens(a[i].Tokens)})
	}
	return out
}

func viewFlat(e *tokenizer.Encoding) M {
	ints := func(xs []int) []int { return append([]int{}, xs...) }
	return M{"ids": ints(e.Ids), "tok": cpsList(e.Tokens), "off": pairs(e.Offsets), "words": ints(e.Words), "types": ints(e.TypeIds),
		"spec": ints(e.SpecialTokenMask), "att": ints(e.AttentionMask)}
}

// grams makes tokens of w characters; those starting with drop are left out.
func grams(w, drop int) func(*normalizer.NormalizedString) ([]tokenizer.Token, error) {
	return func(n *normalizer.NormalizedString) ([]tokenizer.Token, error) {
		s := n.GetNormalized()
		cs := toCps(s)
		var out []tokenizer.Token
		for i := 0; i < len(cs); i += w {
			g := cs[i:min(i+w, len(cs))]
			if g[0] == drop {
				continue
			}
			a := len(cs[:i].str())
			out = append(out, tokenizer.Token{Id: i, Value: g.str(), Offsets: []int{a, a + len(g.str())}})
		}
		return out, nil
	}
}

func runPreTok(raw json.RawMessage) any {
	c := parse[preCase](raw)
	n := normalizer.NewNormalizedFrom(c.Text.str())
	for i, p := range c.Norm {
		var err error
		n, err = p.make(i).Normalize(n)
		check(err)
	}
	pt := tokenizer.NewPreTokenizedStringFromNS(n)
	if len(c.Norm) == 0 && len(c.Text)%2 == 0 {
		pt = tokenizer.NewPreTokenizedString(c.Text.str())
	}
	obs := []any{}
	for i, s := range c.Steps {
		var o M
		pt, o = preStepDo(pt, s, i+len(c.Text))
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func preStepDo(pt *tokenizer.PreTokenizedString, s preStep, alt int) (next *tokenizer.PreTokenizedString, o M) {
	defer func() {
		if p := recover(); p != nil {
			next, o = pt, M{"panic": firstLine(fmt.Sprint(p))}
		}
	}()
	next, ret := preStepRaw(pt, s, alt)
	return next, M{"ret": ret}
}

func preStepRaw(pt *tokenizer.PreTokenizedString, s preStep, alt int) (next *tokenizer.PreTokenizedString, ret any) {
	switch s.A {
	case "pre":
		p := parse[pre](s.P)
		out, err := p.make(alt).PreTokenize(pt)
		if err != nil {
			panic(err)
		}
		return out, viewSplits(out)
	case "ext":
		p := parse[pat](s.P)
		out := pt.Split(func(_ int, n *normalizer.NormalizedString) []tokenizer.SplitIdx {
			var r []tokenizer.SplitIdx
			for _, m := range p.make().FindMatches(n.GetNormalized()) {
				x := n.Slice(normalizer.NewRange(m.Offsets[0], m.Offsets[1], normalizer.NormalizedTarget))
				if m.Offsets[0] == m.Offsets[1] {
					continue
				}
				var ts []tokenizer.Token
				if m.Match {
					ts = []tokenizer.Token{{Id: 7, Value: x.GetNormalized(), Offsets: []int{0, len(x.GetNormalized())}}}
				}
				r = append(r, tokenizer.SplitIdx{Normalized: x, Tokens: ts})
			}
			return r
		})
		return out, viewSplits(out)
	case "norm":
		p := parse[nrm](s.P)
		out := pt.Normalize(func(n *normalizer.NormalizedString) *normalizer.NormalizedString {
			x, err := p.make(alt).Normalize(n)
			check(err)
			return x
		})
		return out, viewSplits(out)
	case "tok":
		out, err := pt.Tokenize(grams(s.W, s.Drop))
		if err != nil {
			panic(err)
		}
		return out, viewSplits(out)
	case "enc":
		e, err := pt.IntoEncoding(s.Type, s.Word, []tokenizer.OffsetType{tokenizer.Byte, tokenizer.Char}[s.Chars])
		if err != nil {
			return pt, []M{}
		}
		if s.Trim == 1 {
			bl := (&pre{Prefix: s.Prefix, Trim: 1}).byteLevel()
			if alt%2 == 0 {
				e = processor.NewByteLevelProcessing(bl).Process(e, nil, true)
			} else {
				e = pretokenizer.ProcessOffsets(e, s.Prefix == 1)
			}
		}
		return pt, []M{viewFlat(e)}
	case "dec":
		var text cps
		for _, x := range pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
			text = append(text, toCps(x.Value)...)
		}
		var toks []string
		at := 0
		for _, k := range append(append([]int{}, s.Cuts...), len(text)) {
			k = min(k, len(text))
			toks = append(toks, text[at:k].str())
			at = k
		}
		return pt, bytesOf((&pre{Prefix: alt % 2}).byteLevel().Decode(toks))
	case "dectoks":
		out := [][]int{}
		bl := (&pre{Prefix: alt % 2}).byteLevel()
		joined := ""
		for _, x := range bl.DecodeChain(strList(s.Toks)) {
			out = append(out, bytesOf(x))
			joined += x
		}
		if bl.Decode(strList(s.Toks)) != joined {
			panic("Decode is not the chain joined")
		}
		return pt, out
	case "table":
		chars, bs := []int{}, []int{}
		for b := 0; b < 256; b++ {
			s := pretokenizer.BytesChar[uint8(b)]
			if r := []rune(s); len(r) == 1 {
				chars = append(chars, int(r[0]))
			} else {
				chars = append(chars, -1)
			}
			if v, ok := pretokenizer.CharBytes[s]; ok {
				bs = append(bs, int(v))
			} else {
				bs = append(bs, -1)
			}
		}
		size := len(pretokenizer.NewByteLevel().Alphabet())
		if size != len(pretokenizer.BytesChar) || size != len(pretokenizer.CharBytes) || size != len(pretokenizer.GenerateBytesChar()) {
			size = -1
		}
		return pt, M{"chars": chars, "bytes": bs, "size": size}
	}
	check(fmt.Errorf("pretok step %q", s.A))
	return pt, nil
}

func randPre(r *rand.Rand, t cps, depth int) M {
	switch r.Intn(12) {
	case 0, 1:
		return M{"k": "ws"}
	case 2:
		return M{"k": "wssplit"}
	case 3:
		return M{"k": "punct", "b": r.Intn(5)}
	case 4:
		return M{"k": "digits", "ind": r.Intn(2)}
	case 5:
		return M{"k": "delim", "c": oneOf(r, t)}
	case 6:
		return M{"k": "bert"}
	case 7:
		return M{"k": "split", "p": randPat(r, t, 1), "b": r.Intn(5), "inv": r.Intn(2)}
	case 8:
		return M{"k": "meta", "s": pick(r, cps{0x2581}, cps{0x2581}, cps{oneOf(r, t)}, cps{'.', '*'}), "scheme": r.Intn(3)}
	case 9:
		return M{"k": "bl", "prefix": r.Intn(2), "trim": r.Intn(2)}
	case 10:
		return M{"k": "script"}
	}
	ps := []M{}
	if depth > 0 {
		for i := r.Intn(4); i > 0; i-- {
			ps = append(ps, randPre(r, t, depth-1))
		}
	}
	return M{"k": "seq", "ps": ps}
}

func init() {
	runners["pretok"] = runPreTok
	generators["S02"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			t := randText(r, 14)
			if r.Intn(15) == 0 && len(t) > 0 {
				t[r.Intn(len(t))] = -(0x80 + r.Intn(0x80))
				t = fixInvalid(t)
			}
			ns, steps := []M{}, []M{}
			for j := r.Intn(3); j > 1; j-- {
				ns = append(ns, randNorm(r, t, 1))
			}
			for j := 1 + r.Intn(3); j > 0; j-- {
				switch r.Intn(6) {
				case 0:
					steps = append(steps, M{"a": "ext", "p": randPat(r, t, 0)})
				case 1:
					steps = append(steps, M{"a": "norm", "p": randNorm(r, t, 1)})
				default:
					steps = append(steps, M{"a": "pre", "p": randPre(r, t, 1)})
				}
			}
			if r.Intn(3) == 0 {
				if r.Intn(8) > 0 {
					steps = append(steps, M{"a": "tok", "w": 1 + r.Intn(4), "drop": pick(r, 0, oneOf(r, t))})
				}
				steps = append(steps, M{"a": "enc", "type": r.Intn(3), "word": r.Intn(4) - 1, "chars": r.Intn(2), "trim": 0, "prefix": 0})
			}
			emit(M{"op": "pretok", "text": t, "norm": ns, "steps": steps})
		}
	}
	generators["S03"] = func(r *rand.Rand, n int, emit func(any)) {
		emit(M{"op": "pretok", "text": cps{}, "norm": []M{}, "steps": []M{{"a": "table"}}})
		for i := 0; i < n; i++ {
			t := randText(r, 16)
			for j := 0; j < len(t); j++ {
				if r.Intn(6) == 0 {
					t[j] = pick[int](r, '\'', 's', 't', 'l', 'v', 'e', ' ', ' ', '\n', 0xa0, 0x3000)
				}
			}
			steps := []M{}
			if r.Intn(4) == 0 {
				steps = append(steps, M{"a": "ext", "p": randPat(r, t, 0)})
			} else if r.Intn(4) == 0 {
				steps = append(steps, M{"a": "pre", "p": randPre(r, t, 1)})
			}
			prefix := r.Intn(2)
			steps = append(steps, M{"a": "pre", "p": M{"k": "bl", "prefix": prefix, "trim": r.Intn(2)}})
			switch r.Intn(5) {
			case 0, 1:
				steps = append(steps, M{"a": "tok", "w": 1 + r.Intn(5), "drop": pick(r, 0, 0, 0, 288)},
					M{"a": "enc", "type": 0, "word": -1, "chars": r.Intn(2), "trim": 1, "prefix": prefix})
			case 2, 3:
				cuts, at := []int{}, 0
				for j := r.Intn(far(5)); j > 0; j-- {
					at += r.Intn(5)
					cuts = append(cuts, at)
				}
				steps = append(steps, M{"a": "dec", "cuts": cuts})
			default:
				toks := []cps{}
				for j := r.Intn(4); j > 0; j-- {
					u := subText(r, t, 4)
					for k := range u {
						if r.Intn(5) > 0 {
							u[k] = 0x21 + r.Intn(0x123)
						}
					}
					toks = append(toks, u)
				}
				steps = append(steps, M{"a": "dectoks", "toks": toks})
			}
			emit(M{"op": "pretok", "text": t, "norm": []M{}, "steps": steps})
		}
	}
}
