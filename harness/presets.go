package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/pretrained"
)

// Ready-made tokenizers (see spec/Presets.tla). They change to the directory of
// their code, which is a relative one as the harness is built (-trimpath): each
// case has its own, with the files of the case.

var presetFiles = map[string][]string{
	"bert":  {"bert-base-uncased-vocab.txt"},
	"large": {"bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"},
	"gpt2":  {"gpt2-vocab.json", "gpt2-merges.txt"},
	"rob":   {"roberta-base-vocab.json", "roberta-base-merges.txt"},
	"squad": {"roberta-base-squad2-vocab.json", "roberta-base-squad2-merges.txt"},
}

type presetStep struct {
	pipeStep
	On     int    `json:"on"`
	K      string `json:"k"`
	Prefix int    `json:"prefix"`
	Trim   int    `json:"trim"`
}

func makePreset(s presetStep) *tokenizer.Tokenizer {
	switch s.K {
	case "bert":
		return pretrained.BertBaseUncased()
	case "large":
		return pretrained.BertLargeCasedWholeWordMaskingSquad()
	case "gpt2":
		return pretrained.GPT2(s.Prefix == 1, s.Trim == 1)
	case "rob":
		return pretrained.RobertaBase(s.Prefix == 1, s.Trim == 1)
	case "squad":
		return pretrained.RobertaBaseSquad2(s.Prefix == 1, s.Trim == 1)
	}
	check(fmt.Errorf("preset %q", s.K))
	return nil
}

func runPreset(raw json.RawMessage) any {
	c := parse[struct {
		Files map[string]struct {
			V  []cps `json:"v"`
			Ms []cps `json:"ms"`
		} `json:"files"`
		Steps []presetStep `json:"steps"`
	}](raw)
	pc := reflect.ValueOf(pretrained.GPT2).Pointer()
	code, _ := runtime.FuncForPC(pc).FileLine(pc)
	if filepath.IsAbs(code) {
		check(fmt.Errorf("built without -trimpath: %s", code))
	}
	home, err := os.Getwd()
	check(err)
	base, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "preset")
	check(err)
	base, err = filepath.EvalSymlinks(base)
	check(err)
	check(os.Chdir(base))
	defer func() {
		check(os.Chdir(home))
		check(os.RemoveAll(base))
	}()
	model := filepath.Join(base, filepath.Dir(code), "model")
	check(os.MkdirAll(model, 0o755))
	for k, f := range c.Files {
		names := presetFiles[k]
		if len(names) == 1 {
			check(os.WriteFile(filepath.Join(model, names[0]), []byte(strings.Join(strList(f.V), "\n")+"\n"), 0o644))
			continue
		}
		vocab := map[string]int{}
		for i, t := range f.V {
			vocab[t.str()] = i
		}
		data, err := json.Marshal(vocab)
		check(err)
		check(os.WriteFile(filepath.Join(model, names[0]), data, 0o644))
		lines := "#version: 0.2\n"
		for _, l := range f.Ms {
			lines += l.str() + "\n"
		}
		check(os.WriteFile(filepath.Join(model, names[1]), []byte(lines), 0o644))
	}
	ps := map[int]*pipeline{}
	obs := []any{}
	for i, s := range c.Steps {
		var o M
		if s.A == "make" {
			o = guarded(func() any {
				tk := makePreset(s)
				dir, err := os.Getwd()
				check(err)
				ps[s.On] = &pipeline{tk: tk, loaded: true}
				return M{"err": 0, "moved": b2i(dir != base)}
			})
			check(os.Chdir(base))
		} else {
			o = guarded(func() any { return ps[s.On].do(s.pipeStep, len(c.Steps)+i) })
		}
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

// byteBpe gives the files of a byte-level BPE for texts of some letters.
func byteBpe(r *rand.Rand, letters []int) (M, []cps) {
	vocab := []cps{{'<', 's', '>'}, {'<', 'p', '>'}, {'<', '/', 's', '>'}}
	seen := map[string]bool{"<s>": true, "<p>": true, "</s>": true}
	add := func(t cps) {
		if !seen[t.str()] {
			seen[t.str()] = true
			vocab = append(vocab, t)
		}
	}
	symbols := []cps{}
	for _, l := range append([]int{' '}, letters...) {
		for _, b := range []byte(cps{l}.str()) {
			s := toCps(pretokenizer.BytesChar[b])
			symbols = append(symbols, s)
			if r.Intn(40) > 0 {
				add(s)
			}
		}
	}
	ms, parts := []cps{}, []cps{}
	lines := map[string]bool{}
	for i := r.Intn(8); i > 0; i-- {
		x, y := pick(r, symbols...), pick(r, symbols...)
		if !seen[x.str()] || !seen[y.str()] {
			continue
		}
		l := append(append(append(cps{}, x...), ' '), y...)
		if lines[l.str()] {
			continue
		}
		lines[l.str()] = true
		xy := append(append(cps{}, x...), y...)
		add(xy)
		symbols = append(symbols, xy)
		parts = append(parts, xy)
		ms = append(ms, l)
	}
	return M{"v": vocab, "ms": ms}, parts
}

// bertLines gives the lines of a vocabulary.
func bertLines(r *rand.Rand, letters []int) M {
	vocab := []cps{}
	seen := map[string]bool{}
	add := func(t cps) {
		if len(t) > 0 && !seen[t.str()] && !strings.ContainsAny(t.str(), " \r\n\t") {
			seen[t.str()] = true
			vocab = append(vocab, t)
		}
	}
	for _, s := range []string{"[PAD]", "[UNK]", "[CLS]", "[SEP]", "[MASK]"} {
		if s != "[PAD]" && s != "[MASK]" || r.Intn(4) > 0 {
			add(toCps(s))
		}
	}
	for i := 4 + r.Intn(14); i > 0; i-- {
		w := cps{}
		for j := 1 + r.Intn(3); j > 0; j-- {
			w = append(w, pick(r, letters...))
		}
		if r.Intn(2) == 0 {
			w = append(cps{'#', '#'}, w...)
		}
		add(w)
	}
	for _, l := range letters {
		if r.Intn(3) > 0 {
			add(cps{l})
			add(cps{'#', '#', l})
		}
	}
	if r.Intn(2) == 0 {
		r.Shuffle(len(vocab), func(i, j int) { vocab[i], vocab[j] = vocab[j], vocab[i] })
	}
	return M{"v": vocab, "ms": []cps{}}
}

func init() {
	runners["preset"] = runPreset
	kinds := []string{"bert", "large", "gpt2", "rob", "squad"}
	generators["T06"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			x := &randPipe{r: r, t: valid(randText(r, 10)), ids: 30}
			x.cands = []cps{{}, {' '}, {' ', ' '}, {'a', 'b'}, {'A', 'b'}, {'\'', 's'}, {0xe9}, {0x4e2d}, x.t, x.t,
				toCps("[MASK]"), toCps("[SEP]"), toCps("[CLS]"), toCps("<s>"), toCps("</s>")}
			letters := append([]int{}, x.t...)
			r.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
			letters = append(letters[:min(5, len(letters))], 'a', 'b', 'A', '.', 0xe9)
			files := M{}
			used := []string{pick(r, kinds...), pick(r, kinds...)}
			for _, k := range used {
				if files[k] != nil {
					continue
				}
				if k == "bert" || k == "large" {
					files[k] = bertLines(r, letters)
				} else {
					files[k], _ = byteBpe(r, append(append([]int{}, letters...), x.t...))
				}
			}
			made := func(on int) M {
				return M{"a": "make", "on": on, "k": used[on-1], "prefix": r.Intn(2), "trim": r.Intn(2)}
			}
			steps := []M{made(1)}
			two := r.Intn(2) == 0
			if two {
				steps = append(steps, made(2))
			}
			on := func() int {
				if two {
					return 1 + r.Intn(2)
				}
				return 1
			}
			for j := 2 + r.Intn(4); j > 0; j-- {
				var s M
				switch r.Intn(8) {
				case 0:
					s = x.setter()
					for s["a"] == "add" || s["a"] == "post" {
						s = x.setter()
					}
				case 1, 2:
					s = x.query()
				case 3:
					s = M{"a": "dec", "ids": x.someIds(), "skip": r.Intn(2)}
				default:
					s = M{"a": "enc", "in": x.input(), "add": r.Intn(2), "chars": r.Intn(2)}
				}
				s["on"] = on()
				steps = append(steps, s)
			}
			emit(M{"op": "preset", "files": files, "steps": steps})
		}
	}
}
