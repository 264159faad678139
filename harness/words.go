package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/util"
)

type wordModel struct {
	Vocab []entry `json:"vocab"`
	Unk   cps     `json:"unk"`
	Pre   cps     `json:"pre"`
	Max   int     `json:"max"`
}

func (m wordModel) vocab() map[string]int {
	v := map[string]int{}
	for _, e := range m.Vocab {
		v[e.T.str()] = e.Id
	}
	return v
}

// asFile is the vocabulary as a file of lines, if it can be one
func (m wordModel) asFile() (string, bool) {
	lines := make([]string, len(m.Vocab))
	for _, e := range m.Vocab {
		s := e.T.str()
		if e.Id >= len(lines) || strings.ContainsAny(s, "\n\r") {
			return "", false
		}
		lines[e.Id] = s
	}
	return strings.Join(append(lines, ""), "\n"), true
}

func inFile(text string, f func(name string)) {
	dir, err := os.MkdirTemp("", "words")
	check(err)
	defer os.RemoveAll(dir)
	name := filepath.Join(dir, "vocab.txt")
	check(os.WriteFile(name, []byte(text), 0o644))
	f(name)
}

func (m wordModel) wordPiece(alt int) tokenizer.Model {
	text, ok := m.asFile()
	// what is so by default need not be said
	quiet := (alt/5)%2 == 0
	unk, pre, max := quiet && m.Unk.str() == "[UNK]", quiet && m.Pre.str() == "##", quiet && m.Max == 100
	built := func(b wordpiece.WordPieceBuilder) wordpiece.WordPiece {
		if !unk {
			b = b.UnkToken(m.Unk.str())
		}
		if !pre {
			b = b.ContinuingSubwordPrefix(m.Pre.str())
		}
		if !max {
			b = b.MaxInputCharsPerWord(m.Max)
		}
		return b.Build()
	}
	switch alt = alt % 5; {
	case alt == 0:
		p := util.NewParams(nil)
		if !unk {
			p.Set("unk_token", m.Unk.str())
		}
		if !pre {
			p.Set("continuing_subword_prefix", m.Pre.str())
		}
		if !max {
			p.Set("max_input_chars_per_word", m.Max)
		}
		wp, err := wordpiece.New(m.vocab(), p)
		check(err)
		return wp
	case alt == 1 && ok && m.Pre.str() == "##":
		var wp wordpiece.WordPiece
		inFile(text, func(name string) {
			var err error
			wp, err = wordpiece.NewWordPieceFromFile(name, m.Unk.str(), m.Max)
			check(err)
		})
		return wp
	case alt == 2 && ok:
		var wp wordpiece.WordPiece
		inFile(text, func(name string) {
			wp = built(wordpiece.NewWordPieceBuilderFromFile(name))
		})
		return wp
	case alt == 3 && m.Max == 100:
		b := bpe.NewBPE(m.vocab(), map[bpe.Pair]bpe.PairVal{})
		u, p := m.Unk.str(), m.Pre.str()
		b.UnkToken, b.ContinuingSubwordPrefix = &u, &p
		return wordpiece.NewWordPieceFromBPE(*b)
	}
	v := model.Vocab(m.vocab())
	return built(wordpiece.NewWordPieceBuilder().Vocab(&v))
}

func (m wordModel) wordLevel(alt, addUnk int) tokenizer.Model {
	text, ok := m.asFile()
	if addUnk == 1 {
		b := wordlevel.NewWordLevelBuilder()
		b.Vocab(m.vocab())
		b.UnkToken(m.Unk.str())
		return b.Build()
	}
	if alt%2 == 0 && ok {
		var wl *wordlevel.WordLevel
		inFile(text, func(name string) {
			var err error
			wl, err = wordlevel.NewWorldLevelFromFile(name, m.Unk.str())
			check(err)
		})
		return wl
	}
	if m.Unk.str() == "<unk>" && alt%3 == 0 {
		b := wordlevel.NewWordLevelBuilder()
		b.Vocab(m.vocab())
		return b.Build()
	}
	wl, err := wordlevel.New(m.vocab(), m.Unk.str())
	check(err)
	return wl
}

type wordStep struct {
	A    string `json:"a"`
	W    cps    `json:"w"`
	Toks []cps  `json:"toks"`
	Ids  []int  `json:"ids"`
}

type wordCase struct {
	Kind   string     `json:"kind"`
	M      wordModel  `json:"m"`
	AddUnk int        `json:"addunk"`
	Steps  []wordStep `json:"steps"`
}

func viewResult(ts []tokenizer.Token, err error) M {
	if err != nil {
		return M{"err": 1, "toks": []M{}}
	}
	return M{"err": 0, "toks": viewTokens(ts)}
}

func viewLooks(m tokenizer.Model, toks []cps, idList []int) M {
	ids, texts := [][]int{}, [][]cps{}
	for _, t := range toks {
		if id, ok := m.TokenToId(t.str()); ok {
			ids = append(ids, []int{id})
		} else {
			ids = append(ids, []int{})
		}
	}
	for _, id := range idList {
		if t, ok := m.IdToToken(id); ok {
			texts = append(texts, []cps{toCps(t)})
		} else {
			texts = append(texts, []cps{})
		}
	}
	if len(m.GetVocab()) != m.GetVocabSize() {
		panic(fmt.Sprintf("%d tokens in a vocabulary of size %d", len(m.GetVocab()), m.GetVocabSize()))
	}
	return M{"ids": ids, "toks": texts, "size": m.GetVocabSize()}
}

func runWord(raw json.RawMessage) any {
	c := parse[wordCase](raw)
	alt := len(c.M.Vocab) + len(c.Steps) + len(c.M.Unk)
	var m tokenizer.Model
	if c.Kind == "wp" {
		m = c.M.wordPiece(alt)
	} else {
		m = c.M.wordLevel(alt, c.AddUnk)
	}
	obs := []any{}
	for _, s := range c.Steps {
		o := guarded(func() any {
			if s.A == "look" {
				return viewLooks(m, s.Toks, s.Ids)
			}
			ts, err := m.Tokenize(s.W.str())
			if c.Kind == "wl" && len(ts) == 1 && ts[0].Value == c.M.Unk.str() {
				if _, ok := m.TokenToId(s.W.str()); !ok {
					ts[0].Value = s.W.str()
				}
			}
			return viewResult(ts, err)
		})
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func randWordModel(r *rand.Rand, kind string) (M, []int, []cps) {
	letters := []int{}
	for i := 2 + r.Intn(4); i > 0; i-- {
		letters = append(letters, pick(r, int('a'), 'b', 'c', 0xe9, 0x4e2d, 0x20ac, 0x1f600, 0x301, -0xff, 0xfffd, '#', ' '))
	}
	m, parts := randWordModelOver(r, kind, letters)
	return m, letters, parts
}

func randWordModelOver(r *rand.Rand, kind string, letters []int) (M, []cps) {
	prefix := pick(r, cps{'#', '#'}, cps{'#', '#'}, cps{}, cps{letters[0]}, cps{0x2581})
	unk := pick(r, cps{'[', 'U', 'N', 'K', ']'}, cps{'<', 'u', 'n', 'k', '>'}, cps{letters[1]})
	parts := []cps{}
	for i := r.Intn(far(14)); i > 0; i-- {
		w := randWord(r, letters, parts, 1+r.Intn(4))
		if r.Intn(8) == 0 {
			w = randWord(r, letters, parts, 5+r.Intn(40))
		}
		parts = append(parts, w)
	}
	seen, vocab := map[string]bool{}, []M{}
	add := func(t cps) {
		if !seen[t.str()] {
			seen[t.str()] = true
			vocab = append(vocab, M{"t": t, "id": 0})
		}
	}
	if r.Intn(5) > 0 {
		add(unk)
	}
	for _, p := range parts {
		if kind == "wp" && r.Intn(2) == 0 {
			add(append(append(cps{}, prefix...), p...))
		} else {
			add(p)
		}
		// what can continue from the characters
		if kind == "wp" && r.Intn(3) == 0 {
			add(append(append(cps{}, prefix...), p[len(p)-1]))
		}
	}
	step, off := 1, 0
	if r.Intn(3) == 0 {
		step, off = 1+r.Intn(3), r.Intn(3)
	}
	for i := range vocab {
		vocab[i]["id"] = off + step*i
	}
	r.Shuffle(len(vocab), func(i, j int) { vocab[i], vocab[j] = vocab[j], vocab[i] })
	return M{"vocab": vocab, "unk": unk, "pre": prefix, "max": pick(r, 100, 100, 100, 0, 3, 5, 8)}, parts
}

func genWord(kind string) generator {
	return func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			m, letters, parts := randWordModel(r, kind)
			steps := []M{}
			for j := 2 + r.Intn(5); j > 0; j-- {
				w := randWord(r, letters, parts, pick(r, r.Intn(14), r.Intn(14), 60))
				if r.Intn(3) == 0 && len(parts) > 0 {
					w = pick(r, parts...)
				}
				if r.Intn(40) == 0 {
					w = randWord(r, letters, parts, 99+r.Intn(4))
					for len(w) < 99 {
						w = append(w, randWord(r, letters, parts, 2)...)
					}
				}
				steps = append(steps, M{"a": "tok", "w": w})
				if r.Intn(4) == 0 {
					steps = append(steps, M{"a": "tok", "w": w})
				}
			}
			toks, ids := []cps{m["unk"].(cps)}, []int{-1}
			for _, p := range parts {
				toks = append(toks, p, append(append(cps{}, m["pre"].(cps)...), p...))
				ids = append(ids, len(ids)-1, 20+r.Intn(30))
			}
			steps = append(steps, M{"a": "look", "toks": toks, "ids": ids})
			add := 0
			if kind == "wl" {
				add = r.Intn(2)
			}
			emit(M{"op": "word", "kind": kind, "m": m, "addunk": add, "steps": steps})
		}
	}
}

func init() {
	runners["word"] = runWord
	generators["M01"] = genWord("wp")
	generators["M02"] = genWord("wl")
}
