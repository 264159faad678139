package main

import (
	"encoding/json"
	"math/rand"

	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/util"
)

type scored struct {
	T cps `json:"t"`
	S int `json:"s"`
}

type uniModel struct {
	Vocab []scored `json:"vocab"`
	Unk   []int    `json:"unk"`
	Fuse  int      `json:"fuse"`
	Fb    int      `json:"fb"`
}

func (m uniModel) make(alt int) *unigram.Unigram {
	vocab := []unigram.TokenScore{}
	for _, e := range m.Vocab {
		vocab = append(vocab, unigram.TokenScore{Token: e.T.str(), Score: float64(e.S) / 4})
	}
	if alt%2 == 0 {
		p := util.NewParams(nil)
		if len(m.Unk) > 0 {
			p.Set("unk_id", m.Unk[0])
			if alt%4 == 0 {
				p.Set("unk_id", float64(m.Unk[0]))
			}
		}
		if m.Fuse == 0 || alt%3 == 0 {
			p.Set("fuse_unk", m.Fuse == 1)
		}
		p.Set("byte_fallback", m.Fb == 1)
		u, err := unigram.New(vocab, p)
		check(err)
		return u
	}
	b := unigram.NewUnigramBuilder().Vocab(vocab).BytesFallback(m.Fb == 1)
	if m.Fuse == 0 || alt%3 == 0 {
		b.FuseUnk(m.Fuse == 1)
	}
	if len(m.Unk) > 0 {
		b.UnkID(m.Unk[0])
	}
	u, err := b.Build()
	check(err)
	return u
}

func runUnigram(raw json.RawMessage) any {
	c := parse[struct {
		M     uniModel   `json:"m"`
		Steps []wordStep `json:"steps"`
	}](raw)
	u := c.M.make(len(c.M.Vocab) + len(c.Steps) + c.M.Fuse)
	unk := ""
	if len(c.M.Unk) > 0 {
		unk, _ = u.IdToToken(c.M.Unk[0])
	}
	obs := []any{}
	for _, s := range c.Steps {
		o := guarded(func() any {
			if s.A == "look" {
				return viewLooks(u, s.Toks, s.Ids)
			}
			w := s.W.str()
			ts, err := u.Tokenize(w)
			v := viewResult(ts, err)
			// what was returned is the caller's
			for i := range ts {
				text := ""
				if o := ts[i].Offsets; len(o) == 2 && 0 <= o[0] && o[0] <= o[1] && o[1] <= len(w) {
					text = w[o[0]:o[1]]
				}
				if len(c.M.Unk) > 0 && ts[i].Id == c.M.Unk[0] && (ts[i].Value == unk || ts[i].Value == text) {
					v["toks"].([]M)[i]["v"] = toCps(text)
				}
				ts[i].Value, ts[i].Id = "?", -7
				for j := range ts[i].Offsets {
					ts[i].Offsets[j] = -9
				}
			}
			return v
		})
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func byteTok(b byte) cps {
	const hex = "0123456789ABCDEF"
	return cps{'<', '0', 'x', int(hex[b>>4]), int(hex[b&15]), '>'}
}

func randUnigram(r *rand.Rand) (M, []int, []cps) {
	letters := []int{}
	for i := 2 + r.Intn(4); i > 0; i-- {
		letters = append(letters, pick(r, int('a'), 'b', 'A', ' ', 0xe9, 0x2581, 0x20ac, 0x1f600, -0xff, 0xfffd))
	}
	grain, base := pick(r, 1, 1, 1, 4, 8), pick(r, 0, 0, -20, 120, -400)
	if r.Intn(8) == 0 { // scores that need more than 24 bits
		grain, base = 1, -20000000
	}
	m, parts := randUnigramOver(r, letters, func() int { return base - r.Intn(60)/grain*grain })
	return m, letters, parts
}

func randUnigramOver(r *rand.Rand, letters []int, score func() int) (M, []cps) {
	unk := pick(r, cps{'<', 'u', 'n', 'k', '>'}, cps{'?'})
	parts := []cps{}
	for i := r.Intn(far(16)); i > 0; i-- {
		w := randWord(r, letters, parts, 1+r.Intn(3))
		if r.Intn(9) == 0 {
			w = randWord(r, letters, parts, 4+r.Intn(25))
		}
		parts = append(parts, w)
	}
	seen, vocab := map[string]bool{}, []M{}
	add := func(t cps) {
		if !seen[t.str()] {
			seen[t.str()] = true
			vocab = append(vocab, M{"t": t, "s": score()})
		}
	}
	has := r.Intn(6) > 0
	if has {
		add(unk)
	}
	for _, p := range parts {
		add(p)
	}
	if r.Intn(2) == 0 {
		for _, l := range letters {
			for _, b := range []byte(cps{l}.str()) {
				if r.Intn(8) > 0 {
					add(byteTok(b))
				}
			}
		}
	}
	r.Shuffle(len(vocab), func(i, j int) { vocab[i], vocab[j] = vocab[j], vocab[i] })
	u := []int{}
	for i, v := range vocab {
		if has && v["t"].(cps).str() == unk.str() {
			u = append(u, i)
		}
	}
	return M{"vocab": vocab, "unk": u, "fuse": r.Intn(2), "fb": r.Intn(2)}, parts
}

func init() {
	runners["unigram"] = runUnigram
	generators["M03"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			m, letters, parts := randUnigram(r)
			steps, words := []M{}, []cps{}
			for j := 2 + r.Intn(4); j > 0; j-- {
				w := randWord(r, letters, parts, pick(r, r.Intn(far(12)), r.Intn(far(12)), 30))
				if fine := len(m["vocab"].([]M)) > 0 && m["vocab"].([]M)[0]["s"].(int) < -1000000; fine && len(w) > 35 {
					w = w[:35]
				}
				if r.Intn(12) == 0 {
					w = append(append(w, pick(r, cps{'<', 'u', 'n', 'k', '>'}, byteTok('a'), cps{'?'})...), letters[0])
				}
				words = append(words, w)
				steps = append(steps, M{"a": "tok", "w": w})
				if r.Intn(3) == 0 {
					steps = append(steps, M{"a": "tok", "w": words[r.Intn(len(words))]})
				}
			}
			toks, ids := []cps{{'?'}, byteTok('a')}, []int{-1, len(m["vocab"].([]M))}
			for i, p := range parts {
				toks = append(toks, p)
				ids = append(ids, i)
			}
			steps = append(steps, M{"a": "look", "toks": toks, "ids": ids})
			emit(M{"op": "unigram", "m": m, "steps": steps})
		}
	}
}
