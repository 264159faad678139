U = '''package unigram_test

import (
	"reflect"
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/unigram"
	"github.com/sugarme/tokenizer/util"
)

var _ = util.NewParams

func zz(t *testing.T, u *unigram.Unigram, text string, want ...tokenizer.Token) {
	got, err := u.Tokenize(text)
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("want %v got %v", want, got)
	}
}

func zzMake(unk int, pieces ...unigram.TokenScore) *unigram.Unigram {
	u, err := unigram.NewUnigramBuilder().Vocab(pieces).UnkID(unk).FuseUnk(true).Build()
	if err != nil {
		panic(err)
	}
	return u
}

func zzTok(id int, v string, from, to int) tokenizer.Token {
	return tokenizer.Token{Id: id, Value: v, Offsets: []int{from, to}}
}
'''
F = 'model/unigram/unigram.go'
SEEDS = [
 dict(id='M03-least-score', property='M03', pkg='model/unigram',
  edits=[(F, '	minScore := u.vocab[0].Score\n', '	minScore := 0.0\n')],
  demo=U + '''
func TestZZDemo(t *testing.T) {
	u := zzMake(0, unigram.TokenScore{Token: "?", Score: 40}, unigram.TokenScore{Token: "ab", Score: 40}, unigram.TokenScore{Token: "bc", Score: 55}, unigram.TokenScore{Token: "c", Score: 30})
	// ab + c = 70; unknown a (20) + bc = 75
	zz(t, u, "abc", zzTok(0, "a", 0, 1), zzTok(2, "bc", 1, 3))
}
''', needs='A vocabulary with positive scores only, and a text whose best cutting has an unknown character', breaks='Unknown characters cost more than ten below the least score, so that a worse cutting is chosen'),
 dict(id='M03-no-single', property='M03', pkg='model/unigram',
  edits=[(F, '			if j == i+charLen {\n', '			if j >= i+charLen {\n')],
  demo=U + '''
func TestZZDemo(t *testing.T) {
	u := zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "ab", Score: -30}, unigram.TokenScore{Token: "bc", Score: -1})
	// ab and unknown c: -70; unknown a and bc: -41
	zz(t, u, "abc", zzTok(0, "a", 0, 1), zzTok(2, "bc", 1, 3))
}
''', needs='A character without a piece of its own, at which a longer piece begins, unknown in the best cutting', breaks='The character cannot be an unknown token, so that a worse cutting is chosen'),
 dict(id='M03-cache-key', property='M03', pkg='model/unigram',
  edits=[(F, '	data, ok := u.cache.Get(sequence)\n', '	data, ok := u.cache.Get(strings.TrimSpace(sequence))\n'),
         (F, '	"path/filepath"\n', '	"path/filepath"\n	"strings"\n')],
  demo=U + '''
func TestZZDemo(t *testing.T) {
	u := zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -1}, unigram.TokenScore{Token: " a", Score: -1})
	zz(t, u, "a", zzTok(1, "a", 0, 1))
	zz(t, u, " a", zzTok(2, " a", 0, 2))
}
''', needs='A text tokenized before, again with white space around it', breaks='The result for the other text is returned'),
 dict(id='M03-unk-prefix', property='M03', pkg='model/unigram',
  edits=[(F, '				newScore := lattice[i].bestScore + unkScore\n', '				newScore := unkScore\n				if i == 0 || lattice[lattice[i].bestIndex].bestScore < 0 {\n					newScore += lattice[i].bestScore\n				}\n')],
  demo=U + '''
func TestZZDemo(t *testing.T) {
	u := zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -20}, unigram.TokenScore{Token: "ab", Score: -45})
	// unknown costs 55; ab 45, a + unknown b 75
	zz(t, u, "ab", zzTok(2, "ab", 0, 2))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -20}, unigram.TokenScore{Token: "ab", Score: -45}, unigram.TokenScore{Token: "abc", Score: -60})
	// abc 60
	zz(t, u, "abcd", zzTok(3, "abc", 0, 3), zzTok(0, "d", 3, 4))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -45}, unigram.TokenScore{Token: "a", Score: -44}, unigram.TokenScore{Token: "ab", Score: -56})
	// unknown costs 66
	zz(t, u, "ab", zzTok(2, "ab", 0, 2))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -50}, unigram.TokenScore{Token: "ab", Score: -62})
	// unknown costs 72; a + unknown b 122
	zz(t, u, "ab", zzTok(2, "ab", 0, 2))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -9}, unigram.TokenScore{Token: "bc", Score: -15}, unigram.TokenScore{Token: "ab", Score: -12})
	// a + bc 24; ab + unknown c 37
	zz(t, u, "abc", zzTok(1, "a", 0, 1), zzTok(2, "bc", 1, 3))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -9}, unigram.TokenScore{Token: "bc", Score: -28}, unigram.TokenScore{Token: "ab", Score: -12})
	// a + bc 37; ab + unknown c 50
	zz(t, u, "abc", zzTok(1, "a", 0, 1), zzTok(2, "bc", 1, 3))
	u = zzMake(0, unigram.TokenScore{Token: "?", Score: -1}, unigram.TokenScore{Token: "a", Score: -30}, unigram.TokenScore{Token: "bc", Score: -28}, unigram.TokenScore{Token: "ab", Score: -27})
	// a + bc 58; ab + unknown c 67
	zz(t, u, "abc", zzTok(1, "a", 0, 1), zzTok(2, "bc", 1, 3))
}
''', needs='An unknown character right after a piece at the start of the text, where another cutting is better', breaks='The score of the first piece is not counted, so that a worse cutting is chosen'),
]
