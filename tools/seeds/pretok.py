H = '''package pretokenizer_test

import (
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/pretokenizer"
)

func zzPieces(t *testing.T, p tokenizer.PreTokenizer, s string) []string {
	pt, err := p.PreTokenize(tokenizer.NewPreTokenizedString(s))
	if err != nil {
		t.Fatal(err)
	}
	var out []string
	for _, x := range pt.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		out = append(out, x.Value)
	}
	return out
}

var _ = pretokenizer.NewByteLevel
'''
SEEDS = [
 dict(id='S02-digits-decimal', property='S02', pkg='pretokenizer',
  edits=[('pretokenizer/digits.go', 'normalizer.NewFnPattern(unicode.IsNumber)', 'normalizer.NewFnPattern(unicode.IsDigit)')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	if got := zzPieces(t, pretokenizer.NewDigits(true), "a\\u00bdb"); len(got) != 3 {
		t.Fatalf("%q", got)
	}
}
''', needs='a number which is not a decimal digit', breaks='fractions and number letters are not split off'),
 dict(id='S02-punct-backtick', property='S02', pkg='pretokenizer',
  edits=[('pretokenizer/punctuation.go', '{0x005b, 0x0060, 1}, // 91-96', '{0x005b, 0x005f, 1}, // 91-95')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	if got := zzPieces(t, pretokenizer.DefaultPunctuation(), "a`b"); len(got) != 3 {
		t.Fatalf("%q", got)
	}
}
''', needs='one ASCII symbol of no Unicode punctuation class', breaks='the backtick is not split off'),
 dict(id='S02-bytelevel-first-prefix', property='S02', pkg='pretokenizer',
  edits=[('pretokenizer/bytelevel.go', 'if bl.AddPrefixSpace && !strings', 'if bl.AddPrefixSpace && noop == 0 && !strings')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	seq := pretokenizer.NewSequence([]tokenizer.PreTokenizer{pretokenizer.NewWhitespaceSplit(), pretokenizer.NewByteLevel()})
	if got := zzPieces(t, seq, "ab cd"); len(got) != 2 || got[1] != "\\u0120cd" {
		t.Fatalf("%q", got)
	}
}
''', needs='the byte-level splitter after another splitter, in a sequence', breaks='only the first piece gets its space'),
 dict(id='S03-nul-byte', property='S03', pkg='pretokenizer',
  edits=[('pretokenizer/bytelevel.go', '''		cb[c] = b
''', '''		if b != 0 {
			cb[c] = b
		}
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	bl := pretokenizer.NewByteLevel()
	bl.SetAddPrefixSpace(false)
	s := "a\\x00b"
	if got := bl.Decode(zzPieces(t, bl, s)); got != s {
		t.Fatalf("%q", got)
	}
}
''', needs='a text with a zero byte', breaks='the zero byte does not decode to itself'),
]
