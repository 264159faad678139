H = '''package tokenizer

import (
	"os"
	"path/filepath"
	"strings"
	"testing"
)

var _ = strings.Repeat

type zzModel struct{ v map[string]int }

func (m zzModel) Tokenize(s string) ([]Token, error)        { return nil, nil }
func (m zzModel) TokenToId(t string) (int, bool)            { id, ok := m.v[t]; return id, ok }
func (m zzModel) IdToToken(id int) (string, bool) {
	for t, i := range m.v {
		if i == id {
			return t, true
		}
	}
	return "", false
}
func (m zzModel) GetVocab() map[string]int                  { return m.v }
func (m zzModel) GetVocabSize() int                         { return len(m.v) }
func (m zzModel) Save(_ string, _ ...string) error          { return nil }

type zzTrainer struct{ words map[string]int }

func (t *zzTrainer) WithProgressBar() bool { return false }
func (t *zzTrainer) Train(w map[string]int) (Model, []AddedToken) {
	t.words = map[string]int{}
	for k, n := range w {
		t.words[k] = n
	}
	return zzModel{map[string]int{}}, []AddedToken{NewAddedToken("[A]", true)}
}
func (t *zzTrainer) ProcessTokens(w map[string]int, toks []string) {
	for _, k := range toks {
		w[k]++
	}
}

type zzPre struct{}

func (zzPre) PreTokenize(p *PreTokenizedString) (*PreTokenizedString, error) { return p, nil }

func zzTrain(t *testing.T, old Model, texts ...string) (*Tokenizer, *zzTrainer) {
	dir, files := t.TempDir(), []string{}
	for _, x := range texts {
		f := filepath.Join(dir, strings.Map(func(r rune) rune {
			if r >= 'a' && r <= 'z' {
				return r
			}
			return '_'
		}, x[:min(len(x), 8)]))
		os.WriteFile(f, []byte(x), 0o644)
		files = append(files, f)
	}
	tk, tr := NewTokenizer(old), &zzTrainer{}
	tk.WithPreTokenizer(zzPre{})
	if err := tk.Train(tr, files); err != nil {
		t.Fatal(err)
	}
	return tk, tr
}
'''
T = 'tokenizer.go'
SEEDS = [
 dict(id='B04-repeated-file', property='B04', pkg='.',
  edits=[(T, '''	for _, f := range files {
		fsize, err := util.FileSize(f)
		if err != nil {
			return err''', '''	for i, f := range files {
		if strings.Contains("\\x00"+strings.Join(files[:i], "\\x00")+"\\x00", "\\x00"+f+"\\x00") {
			continue
		}
		fsize, err := util.FileSize(f)
		if err != nil {
			return err''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	_, tr := zzTrain(t, zzModel{}, "a\\n", "a\\n")
	if tr.words["a"] != 2 {
		t.Fatal(tr.words)
	}
}
''', needs='The same file given twice', breaks='Its words are counted once'),
 dict(id='B04-line-counts', property='B04', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '''		c, _ := words[token]
		c += 1
		words[token] = c
''', '''		if _, ok := words[token]; !ok {
			words[token] = strings.Count(strings.Join(tokens, "\\x00"), token)
		}
''')],
  demo='''package bpe_test

import (
	"testing"

	"github.com/sugarme/tokenizer/model/bpe"
)

func TestZZDemo(t *testing.T) {
	w := map[string]int{}
	bpe.NewBpeTrainer(0, 10).ProcessTokens(w, []string{"a", "ab", "a"})
	if w["a"] != 2 || w["ab"] != 1 {
		t.Fatal(w)
	}
}
''', needs='A word that is part of another word of its line', breaks='It is counted too often'),
 dict(id='B04-last-piece', property='B04', pkg='.',
  edits=[(T, 'chunkNum := int(math.Ceil(fsize / float64(limit)))', 'chunkNum := int(math.Max(1, math.Round(fsize/float64(limit))))')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	trainChunkSize = 100
	_, tr := zzTrain(t, zzModel{}, strings.Repeat("abc\\n", 33))
	if tr.words["abc"] != 33 {
		t.Fatal(tr.words)
	}
}
''', needs='A file larger than a chunk, its last chunk shorter than half of one', breaks='The words of the last chunk are not counted'),
 dict(id='B04-special-first', property='B04', pkg='.',
  edits=[(T, '''	t.model = model
	t.AddSpecialTokens(specialTokens)

	return nil
}

// processChunk''', '''	t.AddSpecialTokens(specialTokens)
	t.model = model

	return nil
}

// processChunk''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk, _ := zzTrain(t, zzModel{map[string]int{"[A]": 0}}, "a\\n")
	if _, ok := tk.TokenToId("[A]"); !ok {
		t.Fatal("[A] is not known")
	}
}
''', needs='A special token that is in the vocabulary of the model before training', breaks='It is unknown after training'),
 dict(id='B04-not-waiting', property='B04', pkg='.', race=True,
  edits=[(T, '	wChan := make(chan map[string]int)\n\n', '	wChan := make(chan map[string]int, 64)\n\n'),
         (T, '''		fmt.Println("Start collecting words...")
''', '''		fmt.Println("Start collecting words...")
		doneChan <- true
'''), (T, '''		// signal the main thread all done with this goroutine
		doneChan <- true
''', '')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	for i := 0; i < 200; i++ {
		_, tr := zzTrain(t, zzModel{}, strings.Repeat("a\\n", 60))
		if tr.words["a"] != 60 {
			t.Fatal(tr.words)
		}
	}
}
''', needs='The collector of the words is behind when the last worker ends', breaks='Words are missing in what the trainer gets'),
]
