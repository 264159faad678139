import os

PIPE = {}
exec(open(os.path.join('tools', 'seeds', 'pipeline.py')).read(), PIPE)
H = PIPE['H']
ENC = '''package tokenizer

import "testing"

func zenc(n, base int) *Encoding {
	e := &Encoding{Overflowing: []Encoding{}, SequenceRanges: map[int]Range{}}
	for i := 0; i < n; i++ {
		e.Ids = append(e.Ids, base+i)
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, string(rune('a'+i)))
		e.Offsets = append(e.Offsets, []int{i, i + 1})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
		e.Words = append(e.Words, i)
	}
	return e
}

'''
NORM = '''package normalizer

import "testing"

'''
SEEDS = [
 dict(id='E01-window-words', property='E01', pkg='.',
  edits=[('encoding.go', 'getCurrentPart(prevEncoding.Words, oWords, partSize, partId, stride),', 'getCurrentPart(e.Words, oWords, partSize, partId, stride),')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	e, err := zenc(9, 10).Truncate(3, 1)
	if err != nil {
		t.Fatal(err)
	}
	for _, o := range e.Overflowing {
		for i := range o.Ids {
			if o.Words[i] != o.Ids[i]-10 {
				t.Fatalf("word of %d is %d", o.Ids[i], o.Words[i])
			}
		}
	}
}
''', needs='a stride, and more than one overflow part', breaks='the tokens a window repeats have the words of other tokens'),
 dict(id='E02-parts-of-full', property='E02', pkg='.',
  edits=[('encoding.go', '''	// 1. Overflowing
	var overflowing []Encoding
''', '''	if len(e.Ids) == targetLength {
		return e
	}
	// 1. Overflowing
	var overflowing []Encoding
''')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	e, err := zenc(5, 10).Truncate(3, 0)
	if err != nil {
		t.Fatal(err)
	}
	p := e.Pad(3, 0, 0, "[PAD]", Right)
	if n := p.Overflowing[0].Len(); n != 3 {
		t.Fatalf("part of %d tokens", n)
	}
}
''', needs='an encoding that has the length already, and a shorter overflow part', breaks='overflow parts are not padded'),
 dict(id='E03-parts-order', property='E03', pkg='.',
  edits=[('encoding.go', '''		// 1.1. The pair itself
		merge := nEncoding.MergeWith(pair.Clone(), growingOffsets)
		overflowings = append(overflowings, *merge)

		// 1.2. Its overflowings
		for _, otherO := range penOverflowings {
			nEncoding := o.Clone()
			merge := nEncoding.MergeWith(otherO.Clone(), growingOffsets)
			overflowings = append(overflowings, *merge)
		}
''', '''		// 1.2. Its overflowings
		for _, otherO := range penOverflowings {
			nEncoding := o.Clone()
			merge := nEncoding.MergeWith(otherO.Clone(), growingOffsets)
			overflowings = append(overflowings, *merge)
		}

		// 1.1. The pair itself
		merge := nEncoding.MergeWith(pair.Clone(), growingOffsets)
		overflowings = append(overflowings, *merge)
''')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	a, b := zenc(3, 10), zenc(2, 20)
	a.Overflowing = []Encoding{*zenc(1, 30)}
	b.Overflowing = []Encoding{*zenc(1, 40)}
	m := a.MergeWith(b, false)
	if m.Overflowing[0].Ids[1] != 20 || m.Overflowing[1].Ids[1] != 40 {
		t.Fatalf("parts %v", m.Overflowing)
	}
}
''', needs='both encodings have overflow parts', breaks='the order of the overflow parts'),
 dict(id='E03-range-start', property='E03', pkg='.',
  edits=[('encoding.go', '''			end := originalLen + r[r.Len()-1] + 1
			newRange := NewRange(start, end)
			var oldRange Range
''', '''			end := originalLen + r.Len()
			if end <= start {
				end = start + r.Len()
			}
			newRange := NewRange(start, end)
			var oldRange Range
''')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	a, b := zenc(2, 10), zenc(4, 20)
	b.SequenceRanges[1] = NewRange(1, 4)
	m := a.MergeWith(b, false)
	if s, ok := m.Token2Sequence(5); !ok || s != 1 {
		t.Fatalf("sequence %d %v", s, ok)
	}
}
''', needs='a range that begins after the first token', breaks='the range of the later encoding ends too early'),
 dict(id='E05-sorted-offsets', property='E05', pkg='.',
  edits=[('encoding.go', '''	for i, o := range e.Offsets {
		if pos >= o[0] && pos < o[1] {
			return i, true
		}
	}

	return -1, false
}

// Char2Word''', '''	lo, hi := 0, len(e.Offsets)
	for lo < hi {
		mid := (lo + hi) / 2
		if o := e.Offsets[mid]; pos >= o[0] && pos < o[1] {
			// the first of those that contain it
			for mid > 0 && pos >= e.Offsets[mid-1][0] && pos < e.Offsets[mid-1][1] {
				mid--
			}
			return mid, true
		} else if pos < o[0] || o[1] == 0 && mid > len(e.Offsets)/2 {
			hi = mid
		} else {
			lo = mid + 1
		}
	}

	return -1, false
}

// Char2Word''')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	e := zenc(6, 10)
	for i := 3; i < 6; i++ {
		e.Offsets[i] = []int{i - 3, i - 2}
	}
	if i, ok := e.Char2Token(0); !ok || i != 0 {
		t.Fatalf("got %d %v", i, ok)
	}
}
''', needs='the offsets of a pair, which begin again', breaks='a token of the second sequence, or none, is found'),
 dict(id='E05-first-sequence', property='E05', pkg='.',
  edits=[('encoding.go', '''		oStart := e.Offsets[start][0]
		oEnd := e.Offsets[end-1][1]
''', '''		oStart := e.Offsets[start][0]
		oEnd := e.Offsets[end-1][1]
		for _, o := range e.Offsets[start:end] {
			if o[0] < oStart {
				oStart = o[0]
			}
		}
''')],
  demo=ENC + '''func TestZZDemo(t *testing.T) {
	e := zenc(4, 10)
	e.Words = []int{0, 1, -1, 1}
	e.Offsets[2] = []int{0, 0}
	if c, ok := e.Word2Chars(1); !ok || c[0] != 1 || c[1] != 4 {
		t.Fatalf("got %v %v", c, ok)
	}
}
''', needs='a special token between the tokens of a word', breaks='the characters of the word begin at the start of the text'),
 dict(id='N01-range-first', property='N01', pkg='normalizer',
  edits=[('normalizer/normalized.go', '''	start := alignments[0][0]
	end := alignments[len(alignments)-1][1]

	return []int{start, end}''', '''	start := alignments[0][0]
	end := alignments[len(alignments)-1][1]
	if len(alignments) > 1 && end == start {
		end = alignments[0][1] + 1
	}

	return []int{start, end}''')],
  demo=NORM + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("a--b").Filter(func(r rune) bool { return r != '-' })
	if r := n.ConvertOffset(NewRange(1, 3, OriginalTarget)); r.Start() != r.End() {
		t.Fatalf("got %v", r.Values())
	}
}
''', needs='a range of the original text all of which was removed', breaks='removed text has a place in the normalized text'),
 dict(id='N01-clamped-start', property='N01', pkg='normalizer',
  edits=[('normalizer/normalized.go', '''	if r.end > maxLen {
		r.end = maxLen
	}
''', '''	if r.end > maxLen {
		r.end = maxLen
		if r.start > r.end {
			r.start = r.end
		}
	}
''')],
  demo=NORM + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("abc")
	if r := n.ConvertOffset(NewRange(5, 6, NormalizedTarget)); r != nil {
		t.Fatalf("got %v", r.Values())
	}
}
''', needs='a range beyond the end of the text', breaks='a range that is not in the text is converted to one that is'),
 dict(id='N02-accents-all-marks', property='N02', pkg='normalizer',
  edits=[('normalizer/normalized.go', 'return !unicode.Is(unicode.Mn, r)', 'return !unicode.Is(unicode.M, r)')],
  demo=NORM + '''func TestZZDemo(t *testing.T) {
	s := "\\u0915\\u093e"
	if got := NewNormalizedFrom(s).RemoveAccents().GetNormalized(); got != s {
		t.Fatalf("got %q", got)
	}
}
''', needs='a spacing mark', breaks='marks that are not accents are removed'),
 dict(id='S01-last-unmatched-rune', property='S01', pkg='normalizer',
  edits=[('normalizer/pattern.go', '''	for byteIdx, char := range inside {
		if fp.fn(char) {
''', '''	for byteIdx, char := range inside {
		if fp.fn(char) && (byteIdx == 0 || char != utf8.RuneError) {
''')],
  demo=NORM + '''func TestZZDemo(t *testing.T) {
	m := NewFnPattern(func(r rune) bool { return r > 127 }).FindMatches("a\\ufffdb")
	if len(m) != 3 || !m[1].Match {
		t.Fatalf("got %v", m)
	}
}
''', needs='the replacement character in the text, not at its start', breaks='an occurrence is not flagged'),
 dict(id='S03-soft-hyphen', property='S03', pkg='pretokenizer',
  edits=[('pretokenizer/bytelevel.go', '		r := rune(323)\n', '		r := rune(322)\n')],
  demo='''package pretokenizer

import "testing"

func TestZZDemo(t *testing.T) {
	seen := map[string]bool{}
	for b := 0; b < 256; b++ {
		c := GenerateBytesChar()[uint8(b)]
		if seen[c] {
			t.Fatalf("%q twice", c)
		}
		seen[c] = true
	}
}
''', needs='a text with the byte 0xAD or 0xA0', breaks='two bytes have the same character'),
 dict(id='S03-trim-empty', property='S03', pkg='pretokenizer',
  edits=[('pretokenizer/bytelevel.go', '''			if offset0 > offsets[1] {
				offset0 = offsets[1]
			}
''', '''			if offset0 >= offsets[1] {
				offset0 = offsets[1] - 1
			}
''')],
  demo='''package pretokenizer

import (
	"testing"

	"github.com/sugarme/tokenizer"
)

func TestZZDemo(t *testing.T) {
	e := tokenizer.NewEncoding([]int{1, 2}, []int{0, 0}, []string{"a", "\\u0120\\u0120"}, [][]int{{0, 1}, {1, 3}}, []int{0, 0}, []int{1, 1}, nil)
	if o := ProcessOffsets(e, false).Offsets[1]; o[0] != 3 || o[1] != 3 {
		t.Fatalf("got %v", o)
	}
}
''', needs='a token of spaces only', breaks='offsets of a token of spaces contain a space'),
 dict(id='B02-set-existing', property='B02', pkg='model/bpe',
  edits=[('model/bpe/cache.go', '''	// Add items up to capacity
	for i, v := range values {
		if i >= remaining {
			break
		}
		c.cmap[v.Key] = v.Value
	}
''', '''	// Add items up to capacity
	for _, v := range values {
		if _, ok := c.cmap[v.Key]; !ok && remaining == 0 {
			break
		}
		remaining--
		c.cmap[v.Key] = v.Value
	}
''')],
  demo='''package bpe

import "testing"

func TestZZDemo(t *testing.T) {
	c := NewCache(2)
	c.SetValues([]CacheItem{{"a", Word{}}})
	c.SetValues([]CacheItem{{"a", Word{}}, {"a", Word{}}, {"b", Word{}}, {"c", Word{}}})
	if c.GetSize() > 2 {
		t.Fatalf("size %d", c.GetSize())
	}
}
''', needs='a key set again among others when the cache is almost full', breaks='the cache holds more than its capacity'),
 dict(id='V02-longer-special', property='V02', pkg='.',
  edits=[('added-vocabulary.go', '''	tokens := append(av.specialTokens, av.addedTokens...)
''', '''	tokens := append(av.addedTokens, av.specialTokens...)
''')],
  demo='''package tokenizer_test

import (
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestZZDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"x": 0}, "x")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<a>", false, tokenizer.WithNormalized(false))})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<a><b>", true)})
	e, err := tk.EncodeSingle("<a><b>")
	if err != nil {
		t.Fatal(err)
	}
	if len(e.Tokens) != 1 {
		t.Fatalf("got %q", e.Tokens)
	}
}
''', needs='an ordinary token that is not normalized and starts a special token', breaks='the special token is cut'),
 dict(id='V02-unk-kept', property='V02', pkg='.',
  edits=[('tokenizer.go', '''			if !skipSpecialTokens || !t.addedVocabulary.IsSpecialToken(tok) {
				tokens = append(tokens, tok)''', '''			if _, added := t.addedVocabulary.addedTokenMap[tok]; !skipSpecialTokens || !added || !t.addedVocabulary.IsSpecialToken(tok) {
				tokens = append(tokens, tok)''')],
  demo='''package tokenizer_test

import (
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/wordlevel"
)

func TestZZDemo(t *testing.T) {
	m, err := wordlevel.New(map[string]int{"<s>": 0, "x": 1}, "x")
	if err != nil {
		t.Fatal(err)
	}
	tk := tokenizer.NewTokenizer(m)
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true)})
	if got := tk.Decode([]int{0, 1}, true); got != "x" {
		t.Fatalf("got %q", got)
	}
}
''', needs='a special token that the model has', breaks='it is not skipped'),
 dict(id='T01-room-for-both', property='T01', pkg='.',
  edits=[('tokenizer.go', '''			nAddedTokens = processor.AddedTokens(pairEncoding != nil)
''', '''			nAddedTokens = processor.AddedTokens(pairEncoding != nil && pairEncoding.Len() > 0)
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 5, Strategy: tokenizer.LongestFirst})
	e, err := tk.Encode(zzPair("a b c d e f", ""), true)
	if err != nil {
		t.Fatal(err)
	}
	if e.Len() > 5 {
		t.Fatalf("%d tokens: %q", e.Len(), e.Tokens)
	}
}
''', needs='a pair whose second sequence is empty', breaks='the encoding is longer than the maximum'),
]
