H = '''package tokenizer_test

import (
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// zzModel has a token for every word, and refuses words that hold an exclamation mark
type zzModel struct{}

func (m zzModel) Tokenize(s string) ([]tokenizer.Token, error) {
	if strings.Contains(s, "!") {
		return nil, fmt.Errorf("no token for %q", s)
	}
	if s == "" {
		return []tokenizer.Token{}, nil
	}
	return []tokenizer.Token{tokenizer.NewToken(len(s), s, []int{0, len(s)})}, nil
}
func (m zzModel) TokenToId(t string) (int, bool)       { return len(t), true }
func (m zzModel) IdToToken(id int) (string, bool)      { return strings.Repeat("a", id), true }
func (m zzModel) GetVocab() map[string]int             { return map[string]int{"a": 1, "aa": 2} }
func (m zzModel) GetVocabSize() int                    { return 2 }
func (m zzModel) Save(_ string, _ ...string) (_ error) { return nil }

func zzNew() *tokenizer.Tokenizer {
	tk := tokenizer.NewTokenizer(zzModel{})
	tk.WithPreTokenizer(pretokenizer.NewBertPreTokenizer())
	return tk
}

func zzBert(tk *tokenizer.Tokenizer) {
	tk.WithPostProcessor(processor.NewBertProcessing(processor.PostToken{Value: "[SEP]", Id: 102}, processor.PostToken{Value: "[CLS]", Id: 101}))
}

func zzPadding(n int) *tokenizer.PaddingParams {
	s := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
	if n >= 0 {
		s = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(n))
	}
	return &tokenizer.PaddingParams{Strategy: *s, Direction: tokenizer.Right, PadToken: "[PAD]"}
}

func zzText(s string) tokenizer.EncodeInput {
	return tokenizer.NewSingleEncodeInput(tokenizer.NewRawInputSequence(s))
}

func zzPair(a, b string) tokenizer.EncodeInput {
	return tokenizer.NewDualEncodeInput(tokenizer.NewRawInputSequence(a), tokenizer.NewRawInputSequence(b))
}

var _ = reflect.DeepEqual
var _ = normalizer.Lowercase
'''
SEEDS = [
 dict(id='T04-padding-after-error', property='T04', pkg='.',
  edits=[('tokenizer.go', '''	// Encoding concurrently
	for i := range inputs {''', '''	// the batch is padded as a whole, below
	padding := t.padding
	t.padding = nil

	// Encoding concurrently
	for i := range inputs {'''),
         ('tokenizer.go', '''	// Do padding if included
	if t.padding != nil {''', '''	// Do padding if included
	t.padding = padding
	if t.padding != nil {''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.WithPadding(zzPadding(4))
	if _, err := tk.EncodeBatch([]tokenizer.EncodeInput{zzText("a"), zzText("b c")}, false); err != nil {
		t.Fatal(err)
	}
	if _, err := tk.EncodeBatch([]tokenizer.EncodeInput{zzText("a"), zzText("b !")}, false); err == nil {
		t.Fatal("no error")
	}
	e, err := tk.Encode(zzText("a"), false)
	if err != nil || e.Len() != 4 {
		t.Fatalf("not padded any more: %v %v", e, err)
	}
}
''', needs='A batch of which a text cannot be encoded, and a later call', breaks='The tokenizer forgets its padding'),
 dict(id='T04-room-for-added', property='T04', pkg='.',
  edits=[('tokenizer.go', '''			maxLength := trunc.MaxLength - nAddedTokens
			params := &TruncationParams{
				MaxLength: maxLength,
				Strategy:  trunc.Strategy,
				Stride:    trunc.Stride,
			}
			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)''', '''			params := trunc
			params.MaxLength -= nAddedTokens
			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)
			if tPairEncoding == nil || len(tPairEncoding.Overflowing) == 0 {
				params.MaxLength += nAddedTokens
			}''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 9})
	for i := 0; i < 2; i++ {
		for _, in := range []tokenizer.EncodeInput{zzPair("a b c d e f", "a b c d e f"), zzText("a b c d e f g h i j")} {
			e, err := tk.Encode(in, true)
			if err != nil || e.Len() != 9 {
				t.Fatalf("%d tokens of 9: %v", e.Len(), err)
			}
		}
	}
}
''', needs='A pair of which the second text is cut, special tokens, and a later call', breaks='The limit shrinks with every such call'),
 dict(id='T02-words-growing', property='T02', pkg='.',
  edits=[('tokenizer.go', 'finalEncoding.Merge(encodings, false)', 'finalEncoding.Merge(encodings, len(encodings) > len(sequence.input[0]))')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	for _, words := range [][]string{{"abc", "de"}, {"a", "bcd", "ef"}} {
		e, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(words)), false)
		if err != nil {
			t.Fatal(err)
		}
		for i, w := range words {
			if !reflect.DeepEqual(e.Offsets[i], []int{0, len(w)}) {
				t.Fatalf("%v: %v", words, e.Offsets)
			}
		}
	}
}
''', needs='A text given as words, more than its first word has letters', breaks='Offsets are not those of the word but of all words joined'),
 dict(id='T02-pair-chars', property='T02', pkg='.',
  edits=[('tokenizer.go', 'pairEncoding, err = t.EncodeSingleSequence(v.Pair, 1, Char)', '''pairOffsets := Char
		if v.Pair.inputType != v.Sentence.inputType {
			pairOffsets = Byte
		}
		pairEncoding, err = t.EncodeSingleSequence(v.Pair, 1, pairOffsets)''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	e, err := tk.EncodeCharOffsets(tokenizer.NewDualEncodeInput(tokenizer.NewInputSequence([]string{"a", "b"}), tokenizer.NewRawInputSequence("\\u00e9\\u00e9 a")), false)
	if err != nil {
		t.Fatal(err)
	}
	if want := [][]int{{0, 1}, {0, 1}, {0, 2}, {3, 4}}; !reflect.DeepEqual(e.Offsets, want) {
		t.Fatalf("%v, want %v", e.Offsets, want)
	}
}
''', needs='A pair of a text and words with letters of more than one byte', breaks='Offsets in characters are offsets in bytes'),
 dict(id='E01-added-for-pair', property='E01', pkg='.',
  edits=[('tokenizer.go', 'nAddedTokens = processor.AddedTokens(pairEncoding != nil)', 'nAddedTokens = processor.AddedTokens(pairEncoding != nil && pairEncoding.Len() > 0)')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 5})
	for _, in := range []tokenizer.EncodeInput{zzText("a b c d e f"), zzPair("a b c", "d e f"), zzPair("a b c d e f", "")} {
		e, err := tk.Encode(in, true)
		if err != nil || e.Len() > 5 {
			t.Fatalf("%d tokens of 5: %v", e.Len(), err)
		}
	}
}
''', needs='A pair whose second text has no token, with a limit', breaks='The encoding is longer than the limit'),
 dict(id='E02-pad-empty', property='E02', pkg='.',
  edits=[('tokenizer.go', '''	// 3. Pad if needed
	if t.padding == nil {''', '''	// 3. Pad if needed
	if t.padding == nil || finalEncoding.IsEmpty() {''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.WithPadding(zzPadding(4))
	for _, s := range []string{"a b", "a", ""} {
		e, err := tk.Encode(zzText(s), true)
		if err != nil || e.Len() != 4 {
			t.Fatalf("%q: %d tokens of 4: %v", s, e.Len(), err)
		}
	}
}
''', needs='A text with no token', breaks='It is not padded'),
 dict(id='E04-special-room', property='E04', pkg='.',
  edits=[('tokenizer.go', 'finalEncoding = processor.Process(tEncoding, tPairEncoding, addSpecialTokens)', '''empty := tEncoding.IsEmpty() && tPairEncoding != nil
		finalEncoding = processor.Process(tEncoding, tPairEncoding, addSpecialTokens && !empty)''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	for _, in := range []tokenizer.EncodeInput{zzPair("a b", ""), zzPair("", "a b")} {
		e, err := tk.Encode(in, true)
		if err != nil || e.Len() != 5 {
			t.Fatalf("%v: %v", e.Tokens, err)
		}
	}
}
''', needs='A pair whose first text has no token', breaks='Special tokens are missing'),
 dict(id='T01-pair-mask', property='T01', pkg='.',
  edits=[('processor/bert.go', '''	pairAttentionMask = append(pairAttentionMask, 1)

	pairWordsOpt''', '''	if len(pairAttentionMask) < len(pairSpecialTokens)-len(pairEncoding.Overflowing) {
		pairAttentionMask = append(pairAttentionMask, 1)
	}

	pairWordsOpt''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	for _, max := range []int{20, 7} {
		tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: max})
		e, err := tk.Encode(zzPair("a b c", "d e f"), true)
		if err != nil || len(e.AttentionMask) != len(e.Ids) {
			t.Fatalf("%v %v: %v", e.Ids, e.AttentionMask, err)
		}
	}
}
''', needs='A pair whose second text is cut, with the BERT post-processor', breaks='The attention mask is shorter than the ids'),
 dict(id='T01-empty-word', property='T01', pkg='.',
  edits=[('tokenizer.go', '''			en, err := encode(true, i, subseq)
			if err != nil {
				return nil, err
			}
			encodings = append(encodings, *en)''', '''			en, err := encode(true, i, subseq)
			if err != nil {
				return nil, err
			}
			if i > 0 && en.Offsets[0][0] < 0 {
				en.Offsets[0][0] = 0
			}
			encodings = append(encodings, *en)''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	for _, words := range [][]string{{"a", "b"}, {"", "a"}, {"a", "", "b"}} {
		if _, err := tk.Encode(tokenizer.NewSingleEncodeInput(tokenizer.NewInputSequence(words)), true); err != nil {
			t.Fatal(err)
		}
	}
}
''', needs='A text given as words, a later one of which has no token', breaks='Encoding crashes'),
]
