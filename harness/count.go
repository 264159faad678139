package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

// setChunkSize sets how many bytes of a file one worker reads. It is there if
// the library is built with its hooks; what is observed must not depend on it.
var setChunkSize func(n int64)

type countFile struct {
	Miss int `json:"miss"`
	C    cps `json:"c"`
	Rep  int `json:"rep"`
}

type countRun struct {
	Files   []countFile `json:"files"`
	Special []cps       `json:"special"`
	Vocab   []entry     `json:"vocab"`
}

type countCase struct {
	Chunk int        `json:"chunk"`
	Norm  []*nrm     `json:"norm"`
	Pre   []*pre     `json:"pre"`
	Bad   cps        `json:"bad"`
	Vocab []entry    `json:"vocab"`
	Runs  []countRun `json:"runs"`
}

// recTrainer notes what it is trained with; counting is the library's.
type recTrainer struct {
	counter interface {
		ProcessTokens(words map[string]int, tokens []string)
		WithProgressBar() bool
	}
	lag     int
	calls   int
	words   map[string]int
	special []tokenizer.AddedToken
	model   tokenizer.Model
}

func (t *recTrainer) WithProgressBar() bool { return t.counter.WithProgressBar() }
func (t *recTrainer) ProcessTokens(words map[string]int, tokens []string) {
	if t.lag > 0 && len(tokens)%t.lag == 0 {
		runtime.Gosched()
		if t.lag%2 == 0 {
			time.Sleep(time.Microsecond * time.Duration(len(tokens)))
		}
	}
	t.counter.ProcessTokens(words, tokens)
}
func (t *recTrainer) Train(words map[string]int) (tokenizer.Model, []tokenizer.AddedToken) {
	t.calls++
	t.words = words
	return t.model, t.special
}

// refuse fails on texts with the given character
type refuse struct {
	tokenizer.PreTokenizer
	bad cps
}

func (p refuse) PreTokenize(pt *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	for _, s := range pt.GetSplits(0, tokenizer.Byte) {
		if strings.Contains(s.Value, p.bad.str()) {
			return nil, errors.New("refused")
		}
	}
	return p.PreTokenizer.PreTokenize(pt)
}

func runCount(raw json.RawMessage) any {
	c := parse[countCase](raw)
	if setChunkSize != nil {
		setChunkSize(int64(c.Chunk))
	}
	dir, err := os.MkdirTemp("", "count")
	check(err)
	defer os.RemoveAll(dir)
	models := []*gramModel{newGramModel(c.Vocab, 1)}
	tk := tokenizer.NewTokenizer(models[0])
	if len(c.Norm) > 0 {
		tk.WithNormalizer(c.Norm[0].make(c.Chunk))
	}
	if len(c.Pre) > 0 {
		p := c.Pre[0].make(c.Chunk)
		if len(c.Bad) > 0 {
			p = refuse{p, c.Bad}
		}
		tk.WithPreTokenizer(p)
	}
	obs := []any{}
	for i, run := range c.Runs {
		models = append(models, newGramModel(run.Vocab, i+2))
		t := &recTrainer{lag: (c.Chunk + i) % 5, model: models[i+1]}
		t.counter = bpe.NewBpeTrainer(0, 10)
		if (c.Chunk+i)%2 == 1 {
			t.counter = wordpiece.NewWordPieceTrainerBuilder().Build()
		}
		for _, s := range run.Special {
			t.special = append(t.special, tokenizer.NewAddedToken(s.str(), true))
		}
		names := []string{}
		for j, f := range run.Files {
			name := filepath.Join(dir, fmt.Sprintf("%d-%d", i, j))
			// the same file again
			for k := 0; k < j; k++ {
				if f.Miss == 0 && run.Files[k].Miss == 0 && run.Files[k].Rep == f.Rep && run.Files[k].C.str() == f.C.str() {
					name = names[k]
				}
			}
			if f.Miss == 0 {
				writeRepeated(name, f.C.str(), f.Rep)
			}
			names = append(names, name)
		}
		o := guarded(func() any {
			err := tk.Train(t, names)
			now := -1
			for k, m := range models {
				if tk.GetModel() == tokenizer.Model(m) {
					now = k
				}
			}
			words := []string{}
			for w := range t.words {
				words = append(words, w)
			}
			sort.Strings(words)
			counts := []M{}
			for _, w := range words {
				counts = append(counts, M{"w": toCps(w), "n": t.words[w]})
			}
			special := append([]string{}, tk.GetSpecialTokens()...)
			for _, s := range special {
				if _, ok := tk.TokenToId(s); !ok {
					panic("special token without an id: " + s)
				}
			}
			return M{"err": b2i(err != nil), "calls": t.calls, "counts": counts, "model": now, "list": M{"all": byId(tk.GetVocab(true)), "model": byId(tk.GetVocab(false)),
				"sizes": []int{tk.GetVocabSize(false), tk.GetVocabSize(true)}, "special": cpsList(special)}}
		})
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func writeRepeated(name, s string, rep int) {
	f, err := os.Create(name)
	check(err)
	w := bufio.NewWriterSize(f, 1<<20)
	for i := 0; i < rep; i++ {
		w.WriteString(s)
	}
	check(w.Flush())
	check(f.Close())
}

func randFileText(r *rand.Rand, words []cps) cps {
	out := cps{}
	for i := r.Intn(12); i > 0; i-- {
		for j := r.Intn(5); j > 0; j-- {
			out = append(out, words[r.Intn(len(words))]...)
			if r.Intn(5) > 0 {
				out = append(out, ' ')
			}
		}
		out = append(out, pick(r, cps{'\n'}, cps{'\n'}, cps{'\r', '\n'}, cps{'\n', '\n'}, cps{'\r'}, cps{})...)
	}
	return out
}

func randCount(r *rand.Rand) M {
	words := []cps{}
	for i := 2 + r.Intn(6); i > 0; i-- {
		words = append(words, randText(r, 1+r.Intn(5)))
	}
	texts := []cps{}
	for i := 1 + r.Intn(4); i > 0; i-- {
		texts = append(texts, randFileText(r, words))
	}
	runs := []M{}
	vocab := func() []M {
		out := []M{}
		for i, t := range []cps{{'[', 'A', ']'}, {'[', 'B', ']'}, {'x'}} {
			if r.Intn(3) == 0 {
				out = append(out, M{"t": t, "id": 2 * i})
			}
		}
		return out
	}
	before := vocab()
	for i := 1 + r.Intn(2); i > 0; i-- {
		files := []M{}
		for j := r.Intn(5); j > 0; j-- {
			f := M{"miss": 0, "c": texts[r.Intn(len(texts))], "rep": 1}
			if r.Intn(25) == 0 {
				f = M{"miss": 1, "c": cps{}, "rep": 1}
			}
			files = append(files, f)
		}
		special := []cps{}
		for j := r.Intn(3); j > 0; j-- {
			special = append(special, cps{'[', 'A' + r.Intn(3), ']'})
		}
		runs = append(runs, M{"files": files, "special": special, "vocab": before})
	}
	if len(runs) == 1 {
		runs[0]["vocab"] = vocab()
	}
	norm, ps, bad := []M{}, []M{}, cps{}
	if r.Intn(3) == 0 {
		norm = append(norm, pick(r, M{"k": "lower"}, M{"k": "strip", "l": 1, "r": 1}, M{"k": "nf", "f": 1}, M{"k": "bert", "clean": 1, "chinese": 1, "lower": 1, "accents": 1}))
	}
	if r.Intn(20) > 0 {
		ps = append(ps, pick(r, M{"k": "wssplit"}, M{"k": "ws"}, M{"k": "bert"}, M{"k": "bl", "prefix": r.Intn(2), "trim": 0}, M{"k": "punct", "b": r.Intn(5)}, M{"k": "seq", "ps": []M{}}))
		if r.Intn(15) == 0 {
			bad = cps{oneOf(r, texts[0])}
		}
	}
	return M{"op": "count", "vocab": before, "chunk": pick(r, 1, 2, 3, 7, 16, 17, 64, 1000, 100<<20), "norm": norm, "pre": ps, "bad": bad, "runs": runs}
}

func init() {
	runners["count"] = runCount
	generators["B04"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			emit(randCount(r))
		}
	}
	// files of more bytes than one worker reads without any hook
	generators["B04big"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			c := randCount(r)
			words := []cps{}
			for j := 0; j < 3; j++ {
				words = append(words, randText(r, 6))
			}
			t := cps{}
			for len(t) < 700 {
				t = append(append(t, words[r.Intn(3)]...), ' ')
				if r.Intn(9) == 0 {
					t = append(t, '\n')
				}
			}
			t = append(t, '\n')
			c["norm"], c["pre"], c["bad"], c["chunk"] = []M{}, []M{{"k": "wssplit"}}, cps{}, 100<<20
			c["runs"] = []M{{"files": []M{{"miss": 0, "c": t, "rep": 150<<20/len(t.str()) + r.Intn(1000)}}, "special": []cps{}, "vocab": []M{}}}
			emit(c)
		}
	}
}
