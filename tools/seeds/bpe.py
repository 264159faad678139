H = '''package bpe_test

import (
	"fmt"
	"sync"
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
)

var _ sync.Mutex

func zzIds(ts []tokenizer.Token, err error) string {
	s := ""
	for _, t := range ts {
		s += fmt.Sprint(t.Value, t.Offsets, " ")
	}
	return s
}

// zzBpe makes a model with the letters and the merges, in order of rank
func zzBpe(letters string, pairs ...[2]string) *bpe.BPE {
	vocab := map[string]int{}
	for _, r := range letters {
		vocab[string(r)] = len(vocab)
	}
	merges := bpe.Merges{}
	for i, p := range pairs {
		n := p[0] + p[1]
		if _, ok := vocab[n]; !ok {
			vocab[n] = len(vocab)
		}
		merges[bpe.Pair{C1: vocab[p[0]], C2: vocab[p[1]]}] = bpe.PairVal{Rank: i, NewId: vocab[n]}
	}
	return bpe.NewBPE(vocab, merges)
}
'''
SEEDS = [
 dict(id='B01-expired-entry', property='B01', pkg='model/bpe',
  edits=[('model/bpe/word.go', '				if !ok || m.NewId != top.(Merge).NewId {', '				if !ok || m.Rank < top.(Merge).Rank {')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	b := zzBpe("abc", [2]string{"b", "c"}, [2]string{"a", "b"}, [2]string{"a", "bc"})
	if got := zzIds(b.Tokenize("abc")); got != "abc[0 3] " {
		t.Fatalf("got %q", got)
	}
}
''', needs='A merge that is out of date because its right part grew, and a later-ranked merge of the grown part', breaks='An out-of-date queue entry is applied: the merged symbol gets the id of another token'),
 dict(id='B01-unknown-width', property='B01', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '		byteLen = len(string(r))\n', '		if byteLen = len(string(r)); byteLen > 3 {\n			byteLen = 3\n		}\n')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	b := zzBpe("a\\U0001f600", [2]string{"\\U0001f600", "a"})
	if got := zzIds(b.Tokenize("a\\U0001f600a")); got != "a[0 1] \\U0001f600a[1 6] " {
		t.Fatalf("got %q", got)
	}
}
''', needs='A character of four bytes', breaks='Offsets behind a character of four bytes are one too small'),
 dict(id='B02-values-found', property='B02', pkg='model/bpe',
  edits=[('model/bpe/cache.go', '''	res = make([]Word, len(keys)) // Pre-allocate slice for better performance

	for i, k := range keys {
		res[i] = c.cmap[k]
	}
''', '''	res = make([]Word, len(keys)) // Pre-allocate slice for better performance

	n := 0
	for _, k := range keys {
		if w, ok := c.cmap[k]; ok {
			res[n] = w
			n++
		}
	}
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	c := bpe.NewCache(2)
	w := bpe.NewWord()
	w.Add(1, 1)
	c.SetValues([]bpe.CacheItem{{Key: "b", Value: *w}})
	if got := c.GetValues([]string{"a", "b"}); len(got[0].Symbols) != 0 || len(got[1].Symbols) != 1 {
		t.Fatalf("%v", got)
	}
}
''', needs='Looking up several keys of which an earlier one is absent', breaks='A value is returned for another key than it was stored under'),
 dict(id='B02-shared-symbols', property='B02', pkg='model/bpe',
  edits=[('model/bpe/word.go', '''	var filtered []Symbol
	for _, s := range w.Symbols {
		if s.Len != 0 {
			filtered = append(filtered, s)
		}
	}
	w.Symbols = filtered
''', '''	filtered := symbolsBuf[:0]
	for _, s := range w.Symbols {
		if s.Len != 0 {
			filtered = append(filtered, s)
		}
	}
	w.Symbols = filtered
'''), ('model/bpe/word.go', '// removeSymbols removes all symbols with lenth == 0\n', '// symbolsBuf saves an allocation for every word\nvar symbolsBuf = make([]Symbol, 0, 16)\n\n// removeSymbols removes all symbols with lenth == 0\n')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	b := zzBpe("abc", [2]string{"b", "c"})
	b.Tokenize("ab")
	b.Tokenize("ca")
	if got := zzIds(b.Tokenize("ab")); got != "a[0 1] b[1 2] " {
		t.Fatalf("got %q", got)
	}
}
''', needs='A word tokenized again after another word', breaks='Cached words share their memory: a later word overwrites an earlier one'),
]
