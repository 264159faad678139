package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"sort"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

type wordCount struct {
	W cps `json:"w"`
	N int `json:"n"`
	K int `json:"k"`
}

type trainOpts struct {
	Wc      []wordCount `json:"wc"`
	Size    int         `json:"size"`
	Minf    int         `json:"minf"`
	Special []cps       `json:"special"`
	Limit   []int       `json:"limit"`
	Initial []int       `json:"initial"`
	Pre     []cps       `json:"pre"`
	Suf     []cps       `json:"suf"`
	Scale   int         `json:"scale"` // each count stands for so many: proportions are what matters
}

func (o trainOpts) times(n int) int { return n * max(1, o.Scale) }

func (o trainOpts) trainer(alt int) *bpe.BpeTrainer {
	var special []tokenizer.AddedToken
	for _, s := range o.Special {
		special = append(special, tokenizer.NewAddedToken(s.str(), true))
	}
	var initial bpe.CharSet
	if len(o.Initial) > 0 || alt%2 == 0 {
		initial = bpe.CharSet{}
		for _, c := range o.Initial {
			initial[string(rune(c))] = struct{}{}
		}
	}
	if alt%2 == 0 {
		t := bpe.NewBpeTrainer(o.times(o.Minf), o.Size)
		t.ShowProgress = false
		t.SpecialTokens, t.InitialAlphabet = special, initial
		if len(o.Limit) > 0 {
			t.LimitAlphabet = &o.Limit[0]
		}
		if len(o.Pre) > 0 {
			s := o.Pre[0].str()
			t.ContinuingSubwordPrefix = &s
		}
		if len(o.Suf) > 0 {
			s := o.Suf[0].str()
			t.EndOfWordSuffix = &s
		}
		return t
	}
	b := bpe.NewBPETrainerBuilder()
	b.MinFrequency(o.times(o.Minf))
	b.VocabSize(o.Size)
	b.SpecialTokens(special)
	b.InitialAlphabet(initial)
	if len(o.Limit) > 0 {
		b.LimitAlphabet(o.Limit[0])
	}
	if len(o.Pre) > 0 {
		b.ContinuingSubwordPrefix(o.Pre[0].str())
	}
	if len(o.Suf) > 0 {
		b.EndOfWordSuffix(o.Suf[0].str())
	}
	return b.Build()
}

func (o trainOpts) counts(t *bpe.BpeTrainer, alt int) map[string]int {
	wc := map[string]int{}
	for _, e := range o.Wc {
		if e.K == 1 && alt == 1 && e.N < 20 && o.Scale < 2 {
			toks := []string{}
			for i := 0; i < e.N; i++ {
				toks = append(toks, e.W.str())
			}
			t.ProcessTokens(wc, toks)
			continue
		}
		for i := 0; i < e.K; i++ {
			w := e.W.str()
			if e.K > 1 {
				w = fmt.Sprintf("%06d", i) + w
			}
			wc[w] += o.times(e.N)
		}
	}
	return wc
}

func viewTrained(m tokenizer.Model, special []tokenizer.AddedToken, toks []cps) M {
	b := m.(bpe.BPE)
	vocab := b.GetVocab()
	vs := make([]cps, len(vocab))
	for t, id := range vocab {
		if id < 0 || id >= len(vs) || vs[id] != nil {
			panic(fmt.Sprintf("id %d of %q", id, t))
		}
		if r, ok := b.IdToToken(id); !ok || r != t {
			panic(fmt.Sprintf("id %d is of %q and %q", id, t, r))
		}
		vs[id] = toCps(t)
	}
	ms := [][]int{}
	for p, v := range *b.Merges {
		ms = append(ms, []int{p.C1, p.C2, v.NewId, v.Rank})
	}
	sort.Slice(ms, func(i, j int) bool { return ms[i][3] < ms[j][3] })
	sp := []cps{}
	for _, s := range special {
		sp = append(sp, toCps(s.Content))
	}
	ts := []M{}
	for _, t := range toks {
		ts = append(ts, viewModelTokens(b.Tokenize(t.str())))
	}
	return M{"vocab": vs, "merges": ms, "special": sp, "toks": ts}
}

func runBpeTrain(raw json.RawMessage) any {
	c := parse[struct {
		O    trainOpts `json:"o"`
		Toks []cps     `json:"toks"`
	}](raw)
	var first M
	for i := 0; i < 3; i++ {
		t := c.O.trainer(i)
		m, special := t.Train(c.O.counts(t, i))
		v := viewTrained(m, special, c.Toks)
		if first == nil {
			first = v
		} else if string(mustJSON(first)) != string(mustJSON(v)) {
			return M{"first": first, "again": v}
		}
	}
	if a, b := c.O.wordPiece(); a != b {
		return M{"bpe": a, "wordpiece": b}
	}
	return first
}

// wordPiece gives the vocabularies of a BPE and a WordPiece model, trained
// with the same options, which have to be the same
func (o trainOpts) wordPiece() (string, string) {
	if len(o.Pre) == 0 {
		o.Pre = []cps{{'#', '#'}}
	}
	m, _ := o.trainer(0).Train(o.counts(o.trainer(0), 0))
	special, initial := []tokenizer.AddedToken{}, bpe.CharSet{}
	for _, s := range o.Special {
		special = append(special, tokenizer.NewAddedToken(s.str(), true))
	}
	for _, c := range o.Initial {
		initial[string(rune(c))] = struct{}{}
	}
	b := wordpiece.NewWordPieceTrainerBuilder().MinFrequency(o.times(o.Minf)).VocabSize(o.Size).SpecialTokens(special).InitialAlphabet(initial).ShowProgress(false)
	if o.Pre[0].str() != "##" {
		b = b.ContinuingSubwordPrefix(o.Pre[0].str())
	}
	if len(o.Limit) > 0 {
		b = b.LimitAlphabet(o.Limit[0])
	}
	if len(o.Suf) > 0 {
		b = b.EndOfWordSuffix(o.Suf[0].str())
	}
	wp := b.Build().Train(o.counts(o.trainer(0), 0))
	return string(mustJSON(byId(m.GetVocab()))), string(mustJSON(byId(wp.GetVocab())))
}

func init() {
	runners["bpetrain"] = runBpeTrain
	generators["B03"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			letters := []int{'a', 'b', 'c', 'd', 'e', 0xe9, 0x1f600}
			r.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
			letters = letters[:1+r.Intn(5)]
			wc := []M{}
			seen := map[string]bool{}
			parts := []cps{}
			for j := r.Intn(far(8)); j >= 0; j-- {
				w := randWord(r, letters, parts, 1+r.Intn(8))
				if r.Intn(20) == 0 {
					w = cps{}
				}
				if len(w) > 1 {
					parts = append(parts, w[:2])
				}
				if !seen[w.str()] {
					seen[w.str()] = true
					wc = append(wc, M{"w": w, "n": pick(r, 1, 1, 1, 2, 2, 3, 7, 40), "k": 1})
				}
			}
			o := M{"wc": wc, "size": pick(r, 0, 3, 6, 10, 20, 100), "minf": pick(r, 0, 0, 1, 2, 3, 8), "special": []cps{}, "limit": []int{}, "initial": []int{}, "pre": []cps{}, "suf": []cps{}}
			if r.Intn(2) == 0 {
				sp := []cps{}
				for j := r.Intn(4); j > 0; j-- {
					sp = append(sp, pick(r, cps{'<', 's', '>'}, cps{'['}, cps{letters[0]}, append(cps{letters[0]}, letters[len(letters)-1]), cps{}))
				}
				o["special"] = sp
			}
			if r.Intn(3) == 0 {
				o["limit"] = []int{r.Intn(5)}
			}
			if r.Intn(4) == 0 {
				o["initial"] = []int{pick(r, 'x', letters[0], 0xe9), 'z'}[:1+r.Intn(2)]
			}
			if r.Intn(4) == 0 {
				o["pre"] = []cps{pick(r, cps{'#', '#'}, cps{letters[0]}, cps{'_'}, cps{})}
			}
			if r.Intn(4) == 0 {
				o["suf"] = []cps{pick(r, cps{'<', '/', 'w', '>'}, cps{letters[0]}, cps{'_'}, cps{})}
			}
			if r.Intn(6) == 0 {
				o["scale"] = pick(r, 50, 1000, 100000, 1<<31, 1<<33, 1<<45)
			}
			if i%100 == 99 { // more words than one worker counts
				k := 3400 + r.Intn(1500)
				wc := []M{{"w": cps{'a', 'b'}, "n": 2, "k": k}, {"w": cps{'b', 'c', 'a', 'b'}, "n": 1, "k": k + r.Intn(2)}, {"w": cps{'c', 'a', 'b', 'c'}, "n": 1 + r.Intn(3), "k": k}}
				// these are the last words in order, and weigh as much as the others
				for j, w := range []cps{{'b', 'b'}, {'c', 'c', 'a'}, {'a', 'c'}}[r.Intn(3):] {
					wc = append(wc, M{"w": w, "n": k + r.Intn(3*k) + j, "k": 1})
				}
				o = M{"wc": wc,
					"size": 8 + r.Intn(4), "minf": pick(r, 0, 5, 4000), "special": []cps{}, "limit": []int{3}, "initial": []int{'a', 'b', 'c'}, "pre": []cps{}, "suf": []cps{}}
			}
			toks := []cps{}
			for j := 0; j < 4; j++ {
				toks = append(toks, randWord(r, letters, parts, 8))
			}
			emit(M{"op": "bpetrain", "o": o, "toks": toks})
		}
	}
}
