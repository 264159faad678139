package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

// gramModel has a given vocabulary and makes tokens of w characters.
type gramModel struct {
	vocab  map[string]int
	vocabR map[int]string
	w      int
}

type entry struct {
	T  cps `json:"t"`
	Id int `json:"id"`
}

func newGramModel(es []entry, w int) *gramModel {
	m := &gramModel{map[string]int{}, map[int]string{}, w}
	for _, e := range es {
		m.vocab[e.T.str()] = e.Id
		m.vocabR[e.Id] = e.T.str()
	}
	return m
}

func (m *gramModel) Tokenize(s string) ([]tokenizer.Token, error) {
	return grams(m.w, 0)(normalizer.NewNormalizedFrom(s))
}
func (m *gramModel) TokenToId(t string) (int, bool)       { id, ok := m.vocab[t]; return id, ok }
func (m *gramModel) IdToToken(id int) (string, bool)      { t, ok := m.vocabR[id]; return t, ok }
func (m *gramModel) GetVocab() map[string]int             { return m.vocab }
func (m *gramModel) GetVocabSize() int                    { return len(m.vocab) }
func (m *gramModel) Save(_ string, _ ...string) (_ error) { return nil }

type addedTok struct {
	C  cps `json:"c"`
	Nz int `json:"nz"`
	Sw int `json:"sw"`
	Ls int `json:"ls"`
	Rs int `json:"rs"`
}

func (a addedTok) make(alt int) tokenizer.AddedToken {
	switch alt % 3 {
	case 0:
		return tokenizer.AddedToken{Content: a.C.str(), Normalized: a.Nz == 1, SingleWord: a.Sw == 1, LStrip: a.Ls == 1, RStrip: a.Rs == 1}
	case 1:
		return tokenizer.NewAddedToken(a.C.str(), a.Nz == 0).SetSingleWord(a.Sw == 1).SetLStrip(a.Ls == 1).SetRStrip(a.Rs == 1)
	}
	return tokenizer.NewAddedToken(a.C.str(), alt%2 == 0, tokenizer.WithNormalized(a.Nz == 1), tokenizer.WithSingleWord(a.Sw == 1),
		tokenizer.WithLStrip(a.Ls == 1), tokenizer.WithRStrip(a.Rs == 1))
}

type vocabStep struct {
	A       string          `json:"a"`
	Toks    json.RawMessage `json:"toks"`
	Special int             `json:"special"`
	P       json.RawMessage `json:"p"`
	Ids     []int           `json:"ids"`
	Text    cps             `json:"text"`
	Chars   int             `json:"chars"`
	Skip    int             `json:"skip"`
}

type vocabCase struct {
	Model []entry     `json:"model"`
	W     int         `json:"w"`
	Steps []vocabStep `json:"steps"`
}

// the tokenizer and, next to it, an added vocabulary of its own, always the same
type vocabState struct {
	model *gramModel
	tk    *tokenizer.Tokenizer
	av    tokenizer.AddedVocabulary
	norm  normalizer.Normalizer
}

func runVocab(raw json.RawMessage) any {
	c := parse[vocabCase](raw)
	m := newGramModel(c.Model, c.W)
	st := &vocabState{m, tokenizer.NewTokenizer(m), tokenizer.NewAddedVocabulary(), nil}
	obs := []any{}
	for i, s := range c.Steps {
		o := st.step(s, i+len(s.Text)+len(c.Model))
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func (st *vocabState) step(s vocabStep, alt int) (o M) {
	defer func() {
		if p := recover(); p != nil {
			o = M{"panic": firstLine(fmt.Sprint(p))}
		}
	}()
	return M{"ret": st.raw(s, alt)}
}

func byId(v map[string]int) []M {
	ts := []string{}
	for t := range v {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return v[ts[i]] < v[ts[j]] || v[ts[i]] == v[ts[j]] && ts[i] < ts[j] })
	out := []M{}
	for _, t := range ts {
		out = append(out, M{"t": toCps(t), "id": v[t]})
	}
	return out
}

func (st *vocabState) raw(s vocabStep, alt int) any {
	same := func(a, b any) any {
		if fmt.Sprint(a) != fmt.Sprint(b) {
			panic(fmt.Sprintf("the tokenizer says %v, the added vocabulary %v", a, b))
		}
		return a
	}
	switch s.A {
	case "add":
		var ts, us []tokenizer.AddedToken
		for i, t := range parse[[]addedTok](s.Toks) {
			ts = append(ts, t.make(alt+i))
			us = append(us, t.make(alt+i))
		}
		if s.Special == 1 {
			return same(st.tk.AddSpecialTokens(ts), st.av.AddSpecialTokens(us, st.model, st.norm))
		}
		return same(st.tk.AddTokens(ts), st.av.AddTokens(us, st.model, st.norm))
	case "norm":
		st.norm = nil
		if ps := parse[[]*nrm](s.P); len(ps) > 0 {
			st.norm = ps[0].make(alt)
		}
		st.tk.WithNormalizer(st.norm)
		st.av.AddTokens(nil, st.model, st.norm)
		return 0
	case "pre":
		st.tk.WithPreTokenizer(nil)
		if ps := parse[[]*pre](s.P); len(ps) > 0 {
			st.tk.WithPreTokenizer(ps[0].make(alt))
		}
		return 0
	case "list":
		special := append([]string{}, st.tk.GetSpecialTokens()...)
		same(st.tk.GetVocabSize(true)-st.tk.GetVocabSize(false), st.av.Len())
		all := st.tk.GetVocab(true)
		// what was handed out is the caller's
		own := st.tk.GetVocab(true)
		own["zz"] = 1000
		st.tk.GetVocab(false)["zy"] = 1001
		return M{"all": byId(all), "model": byId(st.tk.GetVocab(false)),
			"sizes": []int{st.tk.GetVocabSize(false), st.tk.GetVocabSize(true)}, "special": cpsList(special)}
	case "look":
		ids, toks, special := [][]int{}, [][]cps{}, []int{}
		for _, t := range parse[[]cps](s.Toks) {
			id, ok := st.tk.TokenToId(t.str())
			id2, ok2 := st.av.TokenToId(t.str(), st.model)
			same([]any{id, ok}, []any{id2, ok2})
			if ok {
				ids = append(ids, []int{id})
			} else {
				ids = append(ids, []int{})
			}
			special = append(special, b2i(st.av.IsSpecialToken(t.str())))
		}
		for _, id := range s.Ids {
			t, ok := st.tk.IdToToken(id)
			t2, ok2 := st.av.IdToToken(id, st.model)
			same([]any{t, ok}, []any{t2, ok2})
			if ok {
				toks = append(toks, []cps{toCps(t)})
			} else {
				toks = append(toks, []cps{})
			}
		}
		return M{"ids": ids, "toks": toks, "special": special}
	case "ext":
		return viewSplits(st.av.ExtractAndNormalize(s.Text.str(), st.norm))
	case "enc":
		var e *tokenizer.Encoding
		var err error
		in := tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(s.Text.str()))
		switch {
		case s.Chars == 1:
			e, err = st.tk.EncodeCharOffsets(in, alt%2 == 0)
		case alt%2 == 0:
			e, err = st.tk.EncodeSingle(s.Text.str())
		default:
			e, err = st.tk.Encode(in, true)
		}
		check(err)
		return viewFlat(e)
	case "dec":
		return toCps(st.tk.Decode(s.Ids, s.Skip == 1))
	}
	check(fmt.Errorf("vocab step %q", s.A))
	return nil
}

func randAdded(r *rand.Rand, t cps) M {
	c := subText(r, t, 4)
	if r.Intn(5) == 0 {
		c = pick(r, cps{'[', 'A', ']'}, cps{'<', 's', '>'}, cps{'_'}, cps{' '}, cps{})
	}
	rare := func(n int) int { return b2i(r.Intn(n) == 0) }
	return M{"c": c, "nz": r.Intn(2), "sw": rare(3), "ls": rare(3), "rs": rare(3)}
}

func init() {
	runners["vocab"] = runVocab
	gen := func(find bool) generator {
		return func(r *rand.Rand, n int, emit func(any)) {
			for i := 0; i < n; i++ {
				t := randText(r, 8)
				steps := []M{}
				cands := []cps{{}, {'z'}}
				model := []M{}
				free := map[int]bool{}
				id := 0
				for j := r.Intn(far(5)); j > 0; j-- {
					if r.Intn(3) == 0 {
						id += r.Intn(3)
					}
					c := append(subText(r, t, 3), pick[int](r, 'a', 'b', 'c'))
					dup := false
					for _, x := range cands {
						dup = dup || x.str() == c.str()
					}
					if !dup {
						model = append(model, M{"t": c, "id": id})
						cands = append(cands, c)
						free[id] = true
						id++
					}
				}
				r.Shuffle(len(model), func(i, j int) { model[i]["id"], model[j]["id"] = model[j]["id"], model[i]["id"] })
				adds := 1 + r.Intn(3)
				if !find {
					adds += r.Intn(3)
				}
				for j := adds; j > 0; j-- {
					toks := []M{}
					for k := r.Intn(far(4)); k > 0; k-- {
						x := randAdded(r, t)
						if r.Intn(4) == 0 {
							x["c"] = pick(r, cands...)
						}
						cands = append(cands, x["c"].(cps))
						toks = append(toks, x)
					}
					steps = append(steps, M{"a": "add", "toks": toks, "special": r.Intn(2)})
					if r.Intn(3) == 0 {
						p := []M{}
						if r.Intn(4) > 0 {
							p = append(p, randNorm(r, t, 1))
						}
						steps = append(steps, M{"a": "norm", "p": p})
					}
					if !find {
						steps = append(steps, M{"a": "list"})
					}
					if find && r.Intn(2) == 0 {
						steps = append(steps, M{"a": "ext", "text": mixText(r, t, cands)})
					}
				}
				ids := []int{}
				for j := -1; j < len(cands)+id+2; j++ {
					ids = append(ids, j)
				}
				if find {
					steps = append(steps, M{"a": "ext", "text": mixText(r, t, cands)})
					p := []M{}
					if r.Intn(2) == 0 {
						p = append(p, randPre(r, t, 0))
					}
					steps = append(steps, M{"a": "pre", "p": p}, M{"a": "enc", "text": mixText(r, t, cands), "chars": r.Intn(2)})
					r.Shuffle(len(ids), func(i, j int) { ids[i], ids[j] = ids[j], ids[i] })
					steps = append(steps, M{"a": "dec", "ids": ids[:r.Intn(len(ids))], "skip": r.Intn(2)})
				} else {
					steps = append(steps, M{"a": "look", "toks": cands, "ids": ids}, M{"a": "list"})
				}
				emit(M{"op": "vocab", "model": model, "w": 1 + r.Intn(3), "steps": steps})
			}
		}
	}
	generators["V01"] = gen(false)
	generators["V02"] = gen(true)
}

// mixText puts together parts of t, some of the given texts, spaces and letters.
func mixText(r *rand.Rand, t cps, cs []cps) cps {
	out := cps{}
	for i := r.Intn(far(6)); i > 0; i-- {
		switch r.Intn(6) {
		case 0:
			out = append(out, ' ')
		case 1:
			out = append(out, subText(r, t, 3)...)
		case 2:
			out = append(out, pick[int](r, 'a', '_', '-', 0x301, 0xa0, 'A', '\n'))
		default:
			out = append(out, pick(r, cs...)...)
		}
	}
	if stretch > 1 && len(out) > 120 {
		out = toCps(cps(out[:120]).str())
	}
	return out
}
