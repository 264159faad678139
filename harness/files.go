package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordlevel"
	"github.com/sugarme/tokenizer/model/wordpiece"
	"github.com/sugarme/tokenizer/pretrained"
)

// fileModel is a model of kind wp, wl (Vocab, Unk, Pre, Max) or bpe.
type fileModel struct {
	Vocab  json.RawMessage `json:"vocab"`
	Ids    []int           `json:"ids"`
	Merges [][4]int        `json:"merges"`
	Unk    json.RawMessage `json:"unk"`
	Pre    cps             `json:"pre"`
	Suf    cps             `json:"suf"`
	Max    int             `json:"max"`
	Fuse   int             `json:"fuse"`
	Fb     int             `json:"fb"`
}

type fileStep struct {
	A    string `json:"a"`
	M    int    `json:"m"`
	Name int    `json:"name"`
	Miss int    `json:"miss"`
	F    string `json:"f"`
	How  int    `json:"how"`
	C    struct {
		K string  `json:"k"`
		S cps     `json:"s"`
		E []entry `json:"e"`
	} `json:"c"`
}

func (m *fileModel) word() wordModel {
	return wordModel{Vocab: parse[[]entry](m.Vocab), Unk: parse[cps](m.Unk), Pre: m.Pre, Max: m.Max}
}

func (m *fileModel) bpe() *bpe.BPE {
	vocab, ids := map[string]int{}, m.Ids
	for i, t := range parse[[]cps](m.Vocab) {
		vocab[t.str()] = ids[i]
	}
	merges := bpe.Merges{}
	for _, x := range m.Merges {
		merges[bpe.Pair{C1: ids[x[0]], C2: ids[x[1]]}] = bpe.PairVal{Rank: x[3], NewId: ids[x[2]]}
	}
	b := bpe.NewBpeBuilder()
	b.VocabAndMerges(vocab, merges)
	m.options(b)
	r, err := b.Build()
	check(err)
	return r
}

func (m *fileModel) options(b *bpe.BpeBuilder) {
	for _, u := range parse[[]cps](m.Unk) {
		b.UnkToken(u.str())
	}
	if len(m.Pre) > 0 {
		b.ContinuingSubwordPrefix(m.Pre.str())
	}
	if len(m.Suf) > 0 {
		b.EndOfWordSuffix(m.Suf.str())
	}
}

func (m *fileModel) make(kind string, alt int) tokenizer.Model {
	switch kind {
	case "uni":
		return m.uni().make(alt)
	case "wp":
		return m.word().wordPiece(4)
	case "wl":
		return m.word().wordLevel(1, 0)
	}
	return m.bpe()
}

func (m *fileModel) uni() uniModel {
	return uniModel{Vocab: parse[[]scored](m.Vocab), Unk: parse[[]int](m.Unk), Fuse: m.Fuse, Fb: m.Fb}
}

// loadUni reads a saved Unigram model: what the file holds, and whether the
// model made of it does what a model built of that does.
func loadUni(v string, words []cps) M {
	bad := M{"err": 1, "vocab": []M{}, "merges": []M{}, "toks": []M{}}
	b, err := os.ReadFile(v)
	if err != nil {
		return bad
	}
	var conf map[string]any
	var f struct {
		Type  string   `json:"type"`
		Vocab [][2]any `json:"vocab"`
		Unk   *int     `json:"unk_id"`
		Fb    bool     `json:"byte_fallback"`
		Fuse  bool     `json:"fuse_unk"`
	}
	if json.Unmarshal(b, &conf) != nil || json.Unmarshal(b, &f) != nil || f.Type != "Unigram" {
		return bad
	}
	m, err := pretrained.CreateModel(&tokenizer.Config{Model: conf})
	if err != nil {
		return bad
	}
	um := uniModel{Fuse: b2i(f.Fuse), Fb: b2i(f.Fb), Vocab: []scored{}, Unk: []int{}}
	vocab, scores := []entry{}, []int{}
	for i, e := range f.Vocab {
		t, s := toCps(e[0].(string)), e[1].(float64)*4
		vocab, scores = append(vocab, entry{T: t, Id: i}), append(scores, int(s))
		um.Vocab = append(um.Vocab, scored{T: t, S: int(s)})
		if id, ok := m.TokenToId(t.str()); !ok || id != i || s != float64(int(s)) {
			panic(fmt.Sprintf("token %q, id %d, score %v", t.str(), id, s))
		}
	}
	unk := []int{}
	if f.Unk != nil {
		unk = append(unk, *f.Unk)
	}
	um.Unk = unk
	built, same := um.make(1), 1
	for _, w := range words {
		x, xerr := m.Tokenize(w.str())
		y, yerr := built.Tokenize(w.str())
		if string(mustJSON(viewResult(x, xerr))) != string(mustJSON(viewResult(y, yerr))) {
			same = 0
		}
	}
	return M{"err": 0, "vocab": vocab, "merges": unk, "toks": append(scores, um.Fb, um.Fuse, same)}
}

func (m *fileModel) load(kind, v, mf string, alt int) (tokenizer.Model, error) {
	switch kind {
	case "wp":
		w := m.word()
		if st, err := os.Stat(v); err == nil && st.Mode().IsRegular() && (alt%2 == 0 || w.Pre.str() != "##") {
			// (this constructor has no error to return, and the other ones no prefix)
			return wordpiece.NewWordPieceBuilderFromFile(v).UnkToken(w.Unk.str()).ContinuingSubwordPrefix(w.Pre.str()).MaxInputCharsPerWord(w.Max).Build(), nil
		}
		if w.Max == 100 && alt%3 == 0 {
			return wordpiece.NewWordPieceFromFile(v, w.Unk.str())
		}
		return wordpiece.NewWordPieceFromFile(v, w.Unk.str(), w.Max)
	case "wl":
		return wordlevel.NewWorldLevelFromFile(v, m.word().Unk.str())
	}
	if len(parse[[]cps](m.Unk)) == 0 && len(m.Pre) == 0 && len(m.Suf) == 0 && alt%2 == 0 {
		return bpe.NewBpeFromFiles(v, mf)
	}
	var b *bpe.BpeBuilder
	if alt%3 == 0 {
		b = (&bpe.BPE{}).FromFiles(v, mf)
	} else {
		b = bpe.NewBpeBuilder()
		b.Files(v, mf)
	}
	m.options(b)
	return b.Build()
}

func viewModel(kind string, m tokenizer.Model, unk cps, words []cps) M {
	vocab := []entry{}
	for t, id := range m.GetVocab() {
		vocab = append(vocab, entry{T: toCps(t), Id: id})
	}
	sort.Slice(vocab, func(i, j int) bool { return vocab[i].Id < vocab[j].Id })
	for _, e := range vocab {
		if t, ok := m.IdToToken(e.Id); !ok || t != e.T.str() {
			panic("the token of id " + e.T.str() + " is " + t)
		}
	}
	merges := [][]cps{}
	if b, ok := m.(*bpe.BPE); ok {
		type ranked struct {
			p bpe.Pair
			v bpe.PairVal
		}
		var rs []ranked
		for p, v := range *b.Merges {
			rs = append(rs, ranked{p, v})
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].v.Rank < rs[j].v.Rank })
		for _, r := range rs {
			x := []cps{}
			for _, id := range []int{r.p.C1, r.p.C2, r.v.NewId} {
				t, _ := m.IdToToken(id)
				x = append(x, toCps(t))
			}
			merges = append(merges, x)
		}
	}
	toks := []any{}
	for _, w := range words {
		ts, err := m.Tokenize(w.str())
		if kind == "wl" && len(ts) == 1 && ts[0].Value == unk.str() {
			if _, ok := m.TokenToId(w.str()); !ok {
				ts[0].Value = w.str()
			}
		}
		toks = append(toks, viewResult(ts, err))
	}
	return M{"err": 0, "vocab": vocab, "merges": merges, "toks": toks}
}

func runFiles(raw json.RawMessage) any {
	c := parse[struct {
		Kind   string       `json:"kind"`
		Models []*fileModel `json:"models"`
		Words  []cps        `json:"words"`
		Steps  []*fileStep  `json:"steps"`
	}](raw)
	dir, err := os.MkdirTemp("", "files")
	check(err)
	defer os.RemoveAll(dir)
	file := func(name int, f string) string {
		s := "vocab.txt"
		if c.Kind == "bpe" {
			s = map[string]string{"v": "vocab.json", "m": "merges.txt"}[f]
		}
		if name == 1 {
			s = "one-" + s
		}
		if c.Kind == "uni" {
			s = []string{"tokenizer", "one"}[name] + "-vocab.json"
		}
		return filepath.Join(dir, s)
	}
	models := make([]tokenizer.Model, len(c.Models))
	obs := []any{}
	for k, s := range c.Steps {
		o := guarded(func() any {
			at := file(s.Name, s.F)
			switch s.A {
			case "save":
				if models[s.M-1] == nil {
					models[s.M-1] = c.Models[s.M-1].make(c.Kind, k)
				}
				to := dir
				if s.Miss == 1 {
					to = filepath.Join(dir, "missing")
				}
				var err error
				if s.Name == 1 {
					err = models[s.M-1].Save(to, "one")
				} else {
					err = models[s.M-1].Save(to)
				}
				return M{"err": b2i(err != nil)}
			case "load":
				if c.Kind == "uni" {
					return loadUni(file(s.Name, "v"), c.Words)
				}
				m, err := c.Models[s.M-1].load(c.Kind, file(s.Name, "v"), file(s.Name, "m"), len(c.Steps)+len(c.Words)+k)
				if err != nil {
					return M{"err": 1, "vocab": []M{}, "merges": []M{}, "toks": []M{}}
				}
				unk := cps{}
				if c.Kind == "wl" {
					unk = c.Models[s.M-1].word().Unk
				}
				return viewModel(c.Kind, m, unk, c.Words)
			}
			check(os.RemoveAll(at))
			switch {
			case s.A == "block" && s.How == 1:
				check(os.Symlink("/dev/full", at))
			case s.A == "block":
				check(os.Mkdir(at, 0o755))
			case s.A == "put" && s.C.K == "json":
				v := map[string]int{}
				for _, e := range s.C.E {
					v[e.T.str()] = e.Id
				}
				check(os.WriteFile(at, mustJSON(v), 0o644))
			case s.A == "put":
				check(os.WriteFile(at, []byte(s.C.S.str()), 0o644))
			}
			return M{"err": 0}
		})
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

// storable says whether a text can be a line of a file (or a part of one)
func storable(t cps, space bool) bool {
	for _, c := range t {
		if c == '\n' || space && c == ' ' {
			return false
		}
	}
	return len(t) == 0 && !space || len(t) > 0 && t[len(t)-1] != '\r'
}

func randFileModel(r *rand.Rand, kind string) (M, []cps) {
	for {
		if kind == "uni" {
			m, letters, parts := randUnigram(r)
			words, ok := []cps{}, true
			for i := r.Intn(6); i > 0; i-- {
				words = append(words, randWord(r, letters, parts, 1+r.Intn(7)))
			}
			for _, e := range m["vocab"].([]M) {
				for _, c := range e["t"].(cps) {
					ok = ok && c >= 0
				}
			}
			if ok {
				return m, words
			}
			continue
		}
		if kind != "bpe" {
			m, letters, parts := randWordModel(r, kind)
			vocab, ok := m["vocab"].([]M), true
			if r.Intn(3) == 0 {
				vocab = append(vocab, M{"t": pick(r, cps{}, cps{'a', '\t', ' '}, cps{'\r', 'b'}, cps{' '}, cps{0x2028}, cps{0xfeff}, cps{'"'})})
			}
			seen := map[string]bool{}
			for i, e := range vocab {
				e["id"] = i
				ok = ok && storable(e["t"].(cps), false) && !seen[e["t"].(cps).str()]
				seen[e["t"].(cps).str()] = true
			}
			r.Shuffle(len(vocab), func(i, j int) { vocab[i], vocab[j] = vocab[j], vocab[i] })
			m["vocab"] = vocab
			words := []cps{}
			for i := r.Intn(6); i > 0; i-- {
				words = append(words, randWord(r, letters, parts, 1+r.Intn(7)))
			}
			if ok {
				return m, words
			}
			continue
		}
		letters := []int{}
		for i := 2 + r.Intn(4); i > 0; i-- {
			letters = append(letters, pick(r, int('a'), 'b', 'c', 0xe9, '<', '&', '"', '\\', 0x2028, 0x1f600, 0x120, '#', 0xa0, '\t', '\r'))
		}
		m, words := randBpe(r, letters, r.Intn(12))
		raw := parse[bpeModel](mustJSON(m))
		if !validTexts(raw.Vocab) {
			continue
		}
		// merges by different ranks, of what their parts make
		place, ranks := map[string]int{}, r.Perm(len(raw.Merges)+3)
		for i, t := range raw.Vocab {
			place[t.str()] = i
		}
		merges := [][4]int{}
		for i, x := range raw.Merges {
			a, b := raw.Vocab[x[0]], raw.Vocab[x[1]]
			n, ok := place[a.str()+strings.TrimPrefix(b.str(), raw.Pre.str())]
			if ok && storable(a, true) && storable(b, true) && !strings.HasPrefix(a.str(), "#version") {
				merges = append(merges, [4]int{x[0], x[1], n, ranks[i]})
			}
		}
		ids := []int{}
		for _, i := range r.Perm(2*len(raw.Vocab) + 1)[:len(raw.Vocab)] {
			ids = append(ids, i)
		}
		m["merges"], m["ids"], m["drop"] = merges, ids, 0
		return m, words
	}
}

func init() {
	runners["files"] = runFiles
	generators["M04"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			kind := pick(r, "wp", "wl", "bpe", "bpe", "uni")
			models, words := []M{}, []cps{}
			for j := 1 + r.Intn(3); j > 0; j-- {
				m, ws := randFileModel(r, kind)
				models, words = append(models, m), append(words, ws...)
			}
			if len(words) > 8 {
				words = words[:8]
			}
			role := func() string { return pick(r, "v", "m") }
			if kind != "bpe" {
				role = func() string { return "v" }
			}
			broken := map[int]bool{}
			steps := []M{}
			for j := 2 + r.Intn(7); j > 0; j-- {
				name, m := r.Intn(4)/3, 1+r.Intn(len(models))
				fix := func() {
					if broken[name] {
						for _, f := range []string{"v", "m"} {
							if f == "v" || kind == "bpe" {
								steps = append(steps, M{"a": "rm", "name": name, "f": f})
							}
						}
						broken[name] = false
					}
				}
				switch r.Intn(8) {
				case 0:
					steps = append(steps, M{"a": "save", "m": m, "name": name, "miss": 1})
				case 1:
					fix()
					steps = append(steps, M{"a": "block", "name": name, "f": role(), "how": r.Intn(2)}, M{"a": "save", "m": m, "name": name, "miss": 0})
					broken[name] = true
				case 2:
					fix()
					steps = append(steps, M{"a": "rm", "name": name, "f": role()}, M{"a": "load", "m": m, "name": name})
				default:
					fix()
					steps = append(steps, M{"a": "save", "m": m, "name": name, "miss": 0})
					if r.Intn(3) == 0 {
						steps = append(steps, M{"a": "save", "m": 1 + r.Intn(len(models)), "name": 1 - name, "miss": 0})
						broken[1-name] = broken[1-name] || false
					}
					steps = append(steps, M{"a": "load", "m": m, "name": name})
				}
			}
			emit(M{"op": "files", "kind": kind, "models": models, "words": words, "steps": steps})
		}
	}
}
