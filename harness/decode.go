package main

import (
	"encoding/json"
	"math/rand"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/decoder"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

type dec struct {
	K   string `json:"k"`
	S   cps    `json:"s"`
	W   cps    `json:"w"`
	Cl  int    `json:"cl"`
	Pre int    `json:"pre"`
	A   int    `json:"a"`
	Z   int    `json:"z"`
	P   *pat   `json:"p"`
	Ds  []*dec `json:"ds"`
}

func (d *dec) make(alt int) tokenizer.Decoder {
	s := d.S.str()
	switch d.K {
	case "bpe":
		if s == "</w>" && alt%2 == 0 {
			return decoder.DefaultBpeDecoder()
		}
		return decoder.NewBpeDecoder(s)
	case "wordpiece":
		if s == "##" && d.Cl == 1 && alt%2 == 0 {
			return decoder.DefaultWordpieceDecoder()
		}
		return decoder.NewWordPieceDecoder(s, d.Cl == 1)
	case "bytes":
		return decoder.NewByteFallback()
	case "ctc":
		if s == "<pad>" && d.W.str() == "|" && d.Cl == 1 && alt%2 == 0 {
			return decoder.DefaultCTC()
		}
		return decoder.NewCTC(s, d.W.str(), d.Cl == 1)
	case "meta":
		if s == "▁" && d.Pre == 1 && alt%3 == 0 {
			return pretokenizer.DefaultMetaspace()
		}
		if alt%3 == 1 {
			scheme := pretokenizer.Never
			if d.Pre == 1 {
				scheme = []pretokenizer.PrependScheme{pretokenizer.First, pretokenizer.Always}[alt/3%2]
			}
			return pretokenizer.NewMetaspaceWithScheme(s, scheme)
		}
		return pretokenizer.NewMetaspace(s, d.Pre == 1)
	case "fuse":
		return decoder.NewFuse()
	case "strip":
		return decoder.NewStrip(s, d.A, d.Z)
	case "replace":
		switch d.P.K {
		case "str":
			return normalizer.NewReplace(normalizer.String, d.P.S.str(), d.W.str())
		case "re":
			return normalizer.NewReplace(normalizer.Regex, d.P.R.regex(), d.W.str())
		}
		return &normalizer.Replace{Pattern: d.P.make(), Content: d.W.str()}
	case "bytelevel":
		return pretokenizer.NewByteLevel()
	case "seq":
		var ds []tokenizer.Decoder
		for i, x := range d.Ds {
			ds = append(ds, x.make(alt+i))
		}
		return decoder.NewSequence(ds)
	}
	panic("decoder " + d.K)
}

func runDecode(raw json.RawMessage) any {
	c := parse[struct {
		D     *dec    `json:"d"`
		Steps [][]cps `json:"steps"`
	}](raw)
	alt := len(c.Steps)
	vocab := map[string]int{}
	for _, ts := range c.Steps {
		for _, t := range ts {
			alt += len(t)
			if _, ok := vocab[t.str()]; !ok {
				vocab[t.str()] = 3 + 2*len(vocab)
			}
		}
	}
	d := c.D.make(alt)
	b := wordlevel.NewWordLevelBuilder()
	b.Vocab(vocab)
	tkz := tokenizer.NewTokenizer(b.Build())
	tkz.WithDecoder(c.D.make(alt + 1))
	obs := []any{}
	for _, ts := range c.Steps {
		o := guarded(func() any {
			in := strList(ts)
			var ids []int
			for _, t := range in {
				ids = append(ids, vocab[t])
			}
			chain := d.DecodeChain(in)
			v := M{"chain": cpsList(chain), "text": toCps(d.Decode(in)), "tkz": toCps(tkz.Decode(ids, false)), "input": cpsList(in)}
			// what was returned is the caller's
			for i := range chain {
				chain[i] = "?"
			}
			return v
		})
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

var tidyParts = []string{" .", " ?", " !", " ,", " ' ", " n't", " 'm", " do not", " 's", " 've", " 're", ".", "n't", "'s", "do not", "do", " ", "'", ",", "'re"}

func randDec(r *rand.Rand, t cps, depth int, seq bool) M {
	k := r.Intn(10)
	if depth > 0 && r.Intn(3) == 0 {
		k = 10
	}
	one := func() cps { return cps{oneOf(r, t)} }
	some := func() cps { return append(one(), subText(r, t, 1)...) }
	switch k {
	case 0:
		return M{"k": "bpe", "s": pick(r, toCps("</w>"), some())}
	case 1:
		return M{"k": "wordpiece", "s": pick(r, toCps("##"), some(), cps{}), "cl": r.Intn(2)}
	case 2:
		return M{"k": "ctc", "s": pick(r, toCps("<pad>"), some()), "w": pick(r, cps{'|'}, cps{'|'}, some()), "cl": pick(r, 0, 1, 1)}
	case 3:
		return M{"k": "meta", "s": pick(r, cps{0x2581}, cps{0x2581}, one()), "pre": r.Intn(2)}
	case 4:
		return M{"k": "fuse"}
	case 5:
		return M{"k": "strip", "s": pick(r, cps{' '}, one(), one()), "a": r.Intn(4), "z": r.Intn(4)}
	case 6, 7:
		p := randPat(r, t, 2)
		// bytes may make any character, classes are known of those in the table only
		for p["k"] == "inv" || seq && (p["k"] == "fn" || strings.Contains(string(mustJSON(p)), `"cls"`)) {
			p = randPat(r, t, 2)
		}
		return M{"k": "replace", "p": p, "w": pick(r, cps{' '}, cps{}, some())}
	case 8:
		return M{"k": "bytelevel"}
	case 9:
		return M{"k": "bytes"}
	}
	ds := []M{}
	for i := r.Intn(4); i > 0; i-- {
		ds = append(ds, randDec(r, t, depth-1, true))
	}
	return M{"k": "seq", "ds": ds}
}

func init() {
	runners["decode"] = runDecode
	generators["D01"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			t := randText(r, 12)
			d := randDec(r, t, 2, false)
			frags := []cps{{' '}, {0x2581}, cps{0x2581, 'a'}, toCps("##"), toCps("</w>"), toCps("<pad>"), {'|'}, {'#'}, {0x120}, {0x10a, 0xc3}, {0xc3}, {0xa9}, {-0xc3}, {-0xa9}, {-0x80}, {'a'}, {0xe9}}
			for _, s := range tidyParts {
				frags = append(frags, toCps(s))
			}
			if s, ok := d["s"].(cps); ok && len(s) > 0 {
				frags = append(frags, s, s, s, s, s, s)
			}
			steps := [][]cps{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				ts := []cps{}
				for k := far(pick(r, 0, 1, 2, 3, 5, 9)); k > 0; k-- {
					tok := cps{}
					switch r.Intn(8) {
					case 0, 1, 2:
						tok = byteTok(byte(r.Intn(256)))
						switch r.Intn(8) {
						case 0:
							tok[pick(r, 3, 4)] = pick[int](r, 'g', 'a', 'F', '+', 'c')
						case 1:
							tok[pick(r, 0, 2, 5)] = 'X'
						case 2, 3, 4: // the bytes of a character
							for _, b := range []byte(cps{oneOf(r, t)}.str()) {
								ts = append(ts, byteTok(b))
							}
							continue
						}
					case 3:
						tok = subText(r, t, 4)
					default:
						for l := r.Intn(4); l > 0; l-- {
							tok = append(tok, pick(r, frags...)...)
						}
					}
					tok = toCps(tok.str())
					ts = append(ts, tok)
					if r.Intn(4) == 0 {
						ts = append(ts, tok)
					}
				}
				steps = append(steps, ts)
			}
			emit(M{"op": "decode", "d": d, "steps": steps})
		}
	}
}
