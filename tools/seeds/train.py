H = '''package bpe_test

import (
	"fmt"
	"reflect"
	"testing"

	"github.com/sugarme/tokenizer/model/bpe"
)

var _ = reflect.DeepEqual
var _ = fmt.Sprint

func zzTrain(wc map[string]int, opt func(*bpe.BpeTrainerBuilder)) bpe.BPE {
	b := bpe.NewBPETrainerBuilder()
	if opt != nil {
		opt(b)
	}
	m, _ := b.Build().Train(wc)
	return m.(bpe.BPE)
}
'''
SEEDS = [
 dict(id='B03-trim-prefix-chars', property='B03', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '				partB = strings.TrimPrefix(partB, *prefix)\n', '				partB = strings.TrimLeft(partB, *prefix)\n')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	b := zzTrain(map[string]int{"a#": 3}, func(b *bpe.BpeTrainerBuilder) { b.ContinuingSubwordPrefix("##") })
	if _, ok := (*b.Vocab)["a#"]; !ok {
		t.Fatalf("no a# in %v", *b.Vocab)
	}
}
''', needs='A continuing prefix and a character of it inside a word', breaks='The merged token is not the parts put together'),
 dict(id='B03-words-by-map', property='B03', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '''	keys := sortedKeys(wc)

	for _, word := range keys {
		sortedWords = append(sortedWords, word)
		// for word, count := range wc {
		count := wc[word]
''', '''	for word, count := range wc {
		sortedWords = append(sortedWords, word)
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	wc := map[string]int{"ab": 1, "ac": 1, "ad": 1, "ae": 1, "af": 1, "ag": 1}
	var first map[string]int
	for i := 0; i < 50; i++ {
		b := zzTrain(wc, func(b *bpe.BpeTrainerBuilder) { b.ContinuingSubwordPrefix("##") })
		if first == nil {
			first = b.GetVocab()
		}
		if !reflect.DeepEqual(first, b.GetVocab()) {
			t.Fatalf("%v and %v", first, b.GetVocab())
		}
	}
}
''', needs='A prefix or suffix, so that characters of the words are added to the vocabulary in the order of the words', breaks='Training the same counts twice gives different ids'),
 dict(id='B03-last-words', property='B03', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '	for i, j := 0, size; i < n; i, j = j, j+size {\n', '	for i, j := 0, size; j <= n; i, j = j, j+size {\n')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	wc := map[string]int{}
	for i := 0; i < 10001; i++ {
		wc[fmt.Sprintf("%06d", i)] = 1
	}
	wc["zyx"] = 100
	b := zzTrain(wc, func(b *bpe.BpeTrainerBuilder) { b.LimitAlphabet(3); b.InitialAlphabet(bpe.CharSet{"x": {}, "y": {}, "z": {}}) })
	if _, ok := (*b.Vocab)["zyx"]; !ok {
		t.Fatalf("no zyx in %v", *b.Vocab)
	}
}
''', needs='10000 words or more, their number not divisible by the number of workers', breaks='The pairs of the last words are not counted'),
 dict(id='B03-where-first-only', property='B03', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '''						h[k] = struct{}{} // found. Modify it
''', '''						if len(h) < 1000 {
							h[k] = struct{}{} // found. Modify it
						}
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	wc := map[string]int{}
	for i := 0; i < 1200; i++ {
		wc[fmt.Sprintf("%04d", i)+"xy"] = 1
	}
	wc["zxyz"] = 1
	b := zzTrain(wc, func(b *bpe.BpeTrainerBuilder) { b.LimitAlphabet(3); b.InitialAlphabet(bpe.CharSet{"x": {}, "y": {}, "z": {}}) })
	if _, ok := (*b.Vocab)["yz"]; ok {
		t.Fatalf("yz in %v", *b.Vocab)
	}
}
''', needs='A pair in more than a thousand words', breaks='Words behind the thousandth keep the pair after it was merged'),
 dict(id='B03-merge-overlap', property='B03', pkg='model/bpe',
  edits=[('model/bpe/word.go', '''					C1:     w.Symbols[i-1].C,
					C2:     first.C,
					Change: -1,
''', '''					C1:     w.Symbols[i-1].C,
					C2:     c2,
					Change: -1,
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	// xa is merged only while it is more frequent than yy
	b := zzTrain(map[string]int{"xab": 5, "xa": 1, "yy": 3, "ab": 3}, func(b *bpe.BpeTrainerBuilder) { b.VocabSize(6) })
	if _, ok := (*b.Vocab)["xab"]; !ok {
		t.Fatalf("%v", *b.Vocab)
	}
	b = zzTrain(map[string]int{"xab": 5, "xa": 1, "yy": 3, "ab": 3}, func(b *bpe.BpeTrainerBuilder) { b.VocabSize(7) })
	if _, ok := (*b.Vocab)["yy"]; !ok {
		t.Fatalf("%v", *b.Vocab)
	}
	b = zzTrain(map[string]int{"xab": 5, "xa": 2, "yy": 3, "ab": 3}, func(b *bpe.BpeTrainerBuilder) { b.VocabSize(7); b.MinFrequency(3) })
	if len(*b.Vocab) != 7 {
		t.Fatalf("%v", *b.Vocab)
	}
}
''', needs='A pair of different characters merged behind another character', breaks='The count of the pair in front of a merge is not reduced'),
]
