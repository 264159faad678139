H = '''package tokenizer_test

import (
	"reflect"
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

type zzModel struct{ v map[string]int }

func (m zzModel) Tokenize(s string) ([]tokenizer.Token, error) {
	return []tokenizer.Token{tokenizer.NewToken(0, s, []int{0, len(s)})}, nil
}
func (m zzModel) TokenToId(t string) (int, bool) { id, ok := m.v[t]; return id, ok }
func (m zzModel) IdToToken(id int) (string, bool) {
	for t, i := range m.v {
		if i == id {
			return t, true
		}
	}
	return "", false
}
func (m zzModel) GetVocab() map[string]int             { return m.v }
func (m zzModel) GetVocabSize() int                    { return len(m.v) }
func (m zzModel) Save(_ string, _ ...string) (_ error) { return nil }

func zzNew() *tokenizer.Tokenizer { return tokenizer.NewTokenizer(zzModel{map[string]int{"x": 0, "y": 1}}) }

var _ = reflect.DeepEqual
var _ = normalizer.Lowercase
'''
SEEDS = [
 dict(id='V01-id-after-known', property='V01', pkg='.',
  edits=[('added-vocabulary.go', 'id = model.GetVocabSize() + len(av.addedTokenMap)\n', 'id = model.GetVocabSize() + len(av.addedTokenMapR)\n')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("x", true)})
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("new", false)})
	if id, _ := tk.TokenToId("new"); id != 2 {
		t.Fatal(id)
	}
}
''', needs='a token the model knows is added before a new one', breaks='new tokens leave a gap of ids'),
 dict(id='V01-size-known', property='V01', pkg='.',
  edits=[('tokenizer.go', 'return t.model.GetVocabSize() + t.addedVocabulary.Len()', 'return t.model.GetVocabSize() + len(t.addedVocabulary.specialTokens) + len(t.addedVocabulary.addedTokens)')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("new", false)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("new", true)})
	if n := tk.GetVocabSize(true); n != 3 {
		t.Fatal(n)
	}
}
''', needs='an ordinary token is made special later, or a special one is in the model', breaks='the size counts a token twice'),
 dict(id='V02-promote-special', property='V02', pkg='.',
  edits=[('added-vocabulary.go', '''		_, isExist := av.specialTokensSet[tok.Content]
''', '''		_, isExist := av.addedTokenMap[tok.Content]
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("new", false)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("new", true)})
	if s := tk.Decode([]int{0, 2, 1}, true); s != "x y" {
		t.Fatalf("%q", s)
	}
}
''', needs='a token added as ordinary first and as special later', breaks='it is not skipped in decoding'),
 dict(id='V02-token-offset-runes', property='V02', pkg='.',
  edits=[('added-vocabulary.go', 'length := len(value)', 'length := len([]rune(value))')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("\\u00e9t\\u00e9", false)})
	e, err := tk.EncodeSingle("a \\u00e9t\\u00e9 b")
	if err != nil || !reflect.DeepEqual(e.Offsets[1], []int{2, 7}) {
		t.Fatal(e.Offsets, err)
	}
}
''', needs='an added token with characters of several bytes', breaks='its offsets are short'),
 dict(id='V02-strip-slice', property='V02', pkg='.',
  edits=[('added-vocabulary.go', '''	pretok2 := pretok1.Split(func(i int, seq *normalizer.NormalizedString) []SplitIdx {
		newSeq := seq
		var err error
		if n != nil {
''', '''	pretok2 := pretok1.Split(func(i int, seq *normalizer.NormalizedString) []SplitIdx {
		newSeq := seq
		var err error
		if n != nil && (i == 0 || len(av.addedTokens) > 0 || seq.GetNormalized() != seq.GetOriginal()) {
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	tk.WithNormalizer(normalizer.Lowercase())
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[S]", true)})
	e, err := tk.EncodeSingle("A[S]B")
	if err != nil || !reflect.DeepEqual(e.Tokens, []string{"a", "[S]", "b"}) {
		t.Fatal(e.Tokens, err)
	}
}
''', needs='only special tokens added, text after one of them', breaks='the text after a special token is not normalized'),
]
