D = '''package decoder

import (
	"reflect"
	"testing"

	"github.com/sugarme/tokenizer"
)

var _ tokenizer.Decoder

func zz(t *testing.T, d tokenizer.Decoder, want string, tokens ...string) {
	if got := d.Decode(tokens); !reflect.DeepEqual(got, want) {
		t.Fatalf("want %q got %q", want, got)
	}
}
'''
PM = D.replace('package decoder\n', 'package pretokenizer\n')
SEEDS = [
 dict(id='D01-bpe-last', property='D01', pkg='decoder',
  edits=[('decoder/bpe.go', '		tok := strings.ReplaceAll(token, bd.suffix, replacement)\n', '		tok := token\n		if strings.HasSuffix(token, bd.suffix) {\n			tok = token[:len(token)-len(bd.suffix)] + replacement\n		}\n')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewBpeDecoder("</w>"), "a b c", "a</w>b</w>", "c</w>")
}
''', needs='A token with the suffix inside it, as an added token may have', breaks='Only one suffix at the end is replaced') ,
 dict(id='D01-wordpiece-first', property='D01', pkg='decoder',
  edits=[('decoder/wordpiece.go', '''		if i != 0 {
			if strings.HasPrefix''', '''		if i != 0 || strings.HasPrefix(token, wd.prefix) {
			if strings.HasPrefix''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewWordPieceDecoder("##", true), "##a b", "##a", "b")
}
''', needs='A first token which begins with the prefix', breaks='Its prefix is removed although nothing is continued'),
 dict(id='D01-bytes-flush', property='D01', pkg='decoder',
  edits=[('decoder/byte-fallback.go', '''				previousByteTokens = []byte{}
			}
			newTokens''', '''				if len(token) > 0 {
					previousByteTokens = []byte{}
				}
			}
			newTokens''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewByteFallback(), "ab", "<0x61>", "", "b")
}
''', needs='An empty token right after byte tokens', breaks='The bytes are decoded twice'),
 dict(id='D01-bytes-runs', property='D01', pkg='decoder',
  edits=[('decoder/byte-fallback.go', '''			previousByteTokens = append(previousByteTokens, bytes...)
''', '''			previousByteTokens = append(previousByteTokens, bytes...)
			if bytes[0] < utf8.RuneSelf {
				newTokens = append(newTokens, string(previousByteTokens))
				previousByteTokens = nil
			}
''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewByteFallback(), "\\ufffd\\ufffd", "<0xE5>", "<0x61>")
}
''', needs='An incomplete character followed by an ASCII byte', breaks='Bytes which are not valid UTF-8 are put into the text'),
 dict(id='D01-ctc-dedup', property='D01', pkg='decoder',
  edits=[('decoder/ctc.go', '''		if tok != previous {
			toks = append(toks, tok)
			previous = tok
		}''', '''		if tok != previous {
			toks = append(toks, tok)
		}
		if len(tok) > 0 {
			previous = tok
		}''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewCTC("<pad>", "|", false), "aa", "a", "", "a")
}
''', needs='The same token before and after an empty token', breaks='The second is dropped'),
 dict(id='D01-ctc-delim', property='D01', pkg='decoder',
  edits=[('decoder/ctc.go', '''			replaced = cleanup(replaced)
			replaced = strings.ReplaceAll(replaced, d.WordDelimiterToken, " ")
''', '''			replaced = strings.ReplaceAll(replaced, d.WordDelimiterToken, " ")
			replaced = cleanup(replaced)
''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewCTC("<pad>", "|", true), "a .", "a|.")
}
''', needs='A token with a word delimiter and punctuation after it', breaks='The space the delimiter stands for is removed'),
 dict(id='D01-strip-both', property='D01', pkg='decoder',
  edits=[('decoder/strip.go', '				stopCut = index\n', '				stopCut--\n				if d.Start > 0 && startCut > 0 {\n					stopCut = max(startCut, index)\n				} else {\n					stopCut = index + i\n				}\n')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewStrip("_", 0, 2), "a", "a__")
}
''', needs='More than one character to strip at the end, none at the start', breaks='Only one is removed'),
 dict(id='D01-sequence-reuse', property='D01', pkg='decoder',
  edits=[('decoder/sequence.go', '''	for _, dec := range d.decoders {
		tmp := dec.DecodeChain(input)
		input = []string{}
		input = tmp
	}''', '''	for _, dec := range d.decoders {
		tmp := dec.DecodeChain(input)
		if len(tmp) == 0 {
			break
		}
		input = tmp
	}''')],
  demo=D + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewSequence([]tokenizer.Decoder{DefaultCTC(), NewFuse()}), "", "<pad>", "<pad>")
}
''', needs='A member which leaves no token', breaks='What it got is passed on instead'),
 dict(id='D01-metaspace-first', property='D01', pkg='pretokenizer',
  edits=[('pretokenizer/metaspace.go', '''				if i == 0 && m.AddPrefixSpace {''', '''				if i == 0 && len(newChars) == 0 && m.AddPrefixSpace {''')],
  demo=PM + '''
func TestZZDemo(t *testing.T) {
	zz(t, NewMetaspace("_", true), "ab c", "_a_b", "_c")
}
''', needs='A first token with the replacement character after another', breaks='It is made a space'),
 dict(id='D01-replace-rest', property='D01', pkg='normalizer',
  edits=[('normalizer/replace.go', '''				newTokParts = append(newTokParts, r.Content)
''', '''				if n := len(newTokParts); n == 0 || r.PatternType == String || newTokParts[n-1] != r.Content {
					newTokParts = append(newTokParts, r.Content)
				}
''')],
  demo='''package normalizer

import "testing"

func TestZZDemo(t *testing.T) {
	if got := NewReplace(Regex, "a", "b").Decode([]string{"aac"}); got != "bbc" {
		t.Fatalf("got %q", got)
	}
}
''', needs='Adjacent matches of a regular expression', breaks='Only one is replaced, the others are removed'),
]
