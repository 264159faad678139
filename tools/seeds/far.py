import os

def load(n):
    d = {}
    exec(open(os.path.join('tools', 'seeds', n)).read(), d)
    return d
PIPE, FC, BPE, UNI, PT, TR = (load(n + '.py') for n in ('pipeline', 'filecache', 'bpe', 'unigram', 'pretok', 'train'))
ENC = '''package tokenizer

import "testing"

func zenc(n int) *Encoding {
	e := &Encoding{Overflowing: []Encoding{}, SequenceRanges: map[int]Range{}}
	for i := 0; i < n; i++ {
		e.Ids = append(e.Ids, i)
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, string(rune('a'+i)))
		e.Offsets = append(e.Offsets, []int{i, i + 1})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
		e.Words = append(e.Words, i)
	}
	return e
}

'''
SEEDS = [
 dict(id='B01-first-pairs', property='B01', pkg='model/bpe',
  edits=[('model/bpe/word.go', '	for i := 0; i < len(w.Symbols)-1; i += window - 1 {\n', '	for i := 0; i < len(w.Symbols)-1 && i < 32; i += window - 1 {\n')],
  demo=BPE['H'] + '''
func TestZZDemo(t *testing.T) {
	b := zzBpe("ab", [2]string{"a", "b"})
	s := ""
	for i := 0; i < 40; i++ {
		s += "ab"
	}
	got, err := b.Tokenize(s)
	if err != nil || len(got) != 40 {
		t.Fatal(len(got), err)
	}
}
''', needs='a word of more than 32 characters', breaks='pairs far from the start of the word are not merged'),
 dict(id='B02-short-keys', property='B02', pkg='model/bpe',
  edits=[('model/bpe/cache.go', '	word, ok := c.cmap[key]\n', '	word, ok := c.cmap[cacheKey(key)]\n'),
         ('model/bpe/cache.go', '		c.cmap[v.Key] = v.Value\n', '		c.cmap[cacheKey(v.Key)] = v.Value\n'),
         ('model/bpe/cache.go', '// Get returns the value associated with the given key\n', '''// cacheKey bounds what the cache keeps of long words.
func cacheKey(s string) string {
	if len(s) > 32 {
		return s[:32]
	}
	return s
}

// Get returns the value associated with the given key
''')],
  demo=BPE['H'] + '''
func TestZZDemo(t *testing.T) {
	b := zzBpe("abc")
	s := ""
	for i := 0; i < 40; i++ {
		s += "a"
	}
	x := zzIds(b.Tokenize(s + "b"))
	y := zzIds(b.Tokenize(s + "c"))
	if x == y {
		t.Fatal("same tokens", x)
	}
}
''', needs='two words of more than 32 bytes with the same start', breaks='the second word gets the tokens of the first'),
 dict(id='B03-narrow-counts', property='B03', pkg='model/bpe',
  edits=[('model/bpe/trainer.go', '''		c1 := a.(TMerge).Count
		c2 := b.(TMerge).Count
''', '''		c1 := int(int32(a.(TMerge).Count))
		c2 := int(int32(b.(TMerge).Count))
''')],
  demo=TR['H'] + '''
func TestZZDemo(t *testing.T) {
	m := zzTrain(map[string]int{"ab": 5, "cd": 3000000000}, func(b *bpe.BpeTrainerBuilder) { b.VocabSize(5) })
	if _, ok := (*m.Vocab)["cd"]; !ok {
		t.Fatalf("%v", *m.Vocab)
	}
}
''', needs='a corpus in which a pair occurs more than 2147483647 times', breaks='the most frequent pair is not merged first'),
 dict(id='E01-window-limit', property='E01', pkg='.',
  edits=[('encoding.go', '	for int(partSize)*partId < len(oIds) {\n', '	for int(partSize)*partId < len(oIds) && partId < 16 {\n')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	e, err := zenc(40).Truncate(2, 1)
	if err != nil {
		t.Fatal(err)
	}
	seen := map[int]bool{}
	for _, i := range e.Ids {
		seen[i] = true
	}
	for _, o := range e.Overflowing {
		for _, i := range o.Ids {
			seen[i] = true
		}
	}
	if len(seen) != 40 {
		t.Fatal(len(seen))
	}
}
''', needs='a cut that leaves more than sixteen windows', breaks='the tokens behind the sixteenth window are lost'),
 dict(id='E02-pad-by-chunk', property='E02', pkg='.',
  edits=[('tokenizer.go', '''		encodings = PadEncodings(encodings, *t.padding)
	}

	return encodings, nil
''', '''		// a few at a time
		for i := 0; i < len(encodings); i += 16 {
			copy(encodings[i:], PadEncodings(encodings[i:min(i+16, len(encodings))], *t.padding))
		}
	}

	return encodings, nil
''')],
  demo=PIPE['H'] + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.WithPadding(zzPadding(-1))
	var ins []tokenizer.EncodeInput
	for i := 0; i < 17; i++ {
		ins = append(ins, zzText(strings.Repeat("a ", i+1)))
	}
	es, err := tk.EncodeBatch(ins, false)
	if err != nil {
		t.Fatal(err)
	}
	for _, e := range es {
		if e.Len() != 17 {
			t.Fatal(e.Len())
		}
	}
}
''', needs='a batch of more than sixteen inputs, padded to its longest', breaks='the encodings of a batch do not have the same length'),
 dict(id='F01-body-limit', property='F01', pkg='.',
  edits=[('file-util.go', '	defer resp.Body.Close()\n', '''	defer resp.Body.Close()
	if resp.ContentLength < 0 {
		resp.Body = io.NopCloser(io.LimitReader(resp.Body, 1<<20))
	}
''')],
  demo=FC['H'] + '''
func TestZZDemo(t *testing.T) {
	text := strings.Repeat("0123456789", 300000)
	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		w.(http.Flusher).Flush()
		w.Write([]byte(text))
	})
	zzWant(t, zzRead(t, "m", "f"), text)
}
''', needs='a file of more than a megabyte, from a server which does not tell its length', breaks='the start of the file is cached as the file'),
 dict(id='M03-hopeless', property='M03', pkg='model/unigram',
  edits=[('model/unigram/unigram.go', '''		if lattice[i].bestScore == math.Inf(-1) {
			// If we can't reach this position, skip it
''', '''		if lattice[i].bestScore < -1000 {
			// If we can't reach this position, skip it
''')],
  demo=UNI['U'] + '''
func TestZZDemo(t *testing.T) {
	u := zzMake(0, unigram.TokenScore{Token: "?", Score: 0}, unigram.TokenScore{Token: "ab", Score: -30}, unigram.TokenScore{Token: "c", Score: -30})
	s := ""
	for i := 0; i < 60; i++ {
		s += "ab"
	}
	got, err := u.Tokenize(s)
	if err != nil || len(got) != 60 {
		t.Fatal(len(got), err)
	}
}
''', needs='a long text, or low scores', breaks='a text whose best cutting scores below -1000 is not cut'),
 dict(id='S03-ascii-pieces', property='S03', pkg='pretokenizer',
  edits=[('pretokenizer/bytelevel.go', '''		s := normalized.GetNormalized()
		var changeMap []normalizer.ChangeMap
''', '''		s := normalized.GetNormalized()
		if len(s) >= 16 && strings.IndexFunc(s, func(r rune) bool { return r < ' ' || r > '~' }) < 0 {
			return normalized // printable: nothing to change
		}
		var changeMap []normalizer.ChangeMap
''')],
  demo=PT['H'] + '''
func TestZZDemo(t *testing.T) {
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(false)
	s := "an internationalization"
	got := zzPieces(t, bl, s)
	if len(got) != 2 || got[1] != "\\u0120internationalization" {
		t.Fatalf("%q", got)
	}
}
''', needs='a word of at least fifteen plain letters, with a space before it', breaks='the space is not mapped to its visible letter'),
 dict(id='T03-decode-strides', property='T03', pkg='.',
  edits=[('tokenizer.go', '''	wg.Add(len(sentences))

	// Decoding concurrently
	for i := 0; i < len(sentences); i++ {
		go func(i int) {
			defer wg.Done()
''', '''	size := 1 + len(sentences)/8
	// Decoding concurrently, a few sentences at a time
	for at := 0; at+size <= len(sentences); at += size {
		wg.Add(1)
		go func(at int) {
			defer wg.Done()
			for i := at + 1; i < at+size; i++ {
				decodings[i] = t.Decode(sentences[i], skipSpecialTokens)
			}
			i := at
'''), ('tokenizer.go', '		}(i)\n	}\n\n	wg.Wait()\n\n	return decodings', '		}(at)\n	}\n\n	wg.Wait()\n\n	return decodings')],
  demo=PIPE['H'] + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	var rows [][]int
	for i := 0; i < 19; i++ {
		rows = append(rows, []int{i + 1})
	}
	for i, s := range tk.DecodeBatch(rows, false) {
		if s != tk.Decode(rows[i], false) {
			t.Fatalf("%d: %q", i, s)
		}
	}
}
''', needs='more than eight sentences, not a multiple of the group size', breaks='the last sentences are not decoded'),
]
