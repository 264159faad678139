W = '''package wordpiece_test

import (
	"reflect"
	"strings"
	"testing"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model"
	"github.com/sugarme/tokenizer/model/wordpiece"
)

var _ = strings.Repeat

func zz(t *testing.T, v model.Vocab, word string, max int, want ...tokenizer.Token) {
	got, err := wordpiece.NewWordPieceBuilder().Vocab(&v).MaxInputCharsPerWord(max).Build().Tokenize(word)
	if err != nil {
		t.Fatal(err)
	}
	if !reflect.DeepEqual(got, want) {
		t.Fatalf("want %v got %v", want, got)
	}
}
'''
L = '''package wordlevel_test

import (
	"reflect"
	"testing"

	"github.com/sugarme/tokenizer/model/wordlevel"
)

var _ = reflect.DeepEqual
'''
F = 'model/wordpiece/wordpiece.go'
G = 'model/wordlevel/wordlevel.go'
SEEDS = [
 dict(id='M01-limit-bytes', property='M01', pkg='model/wordpiece',
  edits=[(F, '	if charLen > wp.maxInputCharsPerWord {', '	if len(sequence) > wp.maxInputCharsPerWord {')],
  demo=W + '''
func TestZZDemo(t *testing.T) {
	zz(t, model.Vocab{"[UNK]": 0, "éé": 1}, "éé", 3, tokenizer.Token{Id: 1, Value: "éé", Offsets: []int{0, 4}})
}
''', needs='A word with fewer characters than the limit and more bytes', breaks='It becomes the unknown token'),
 dict(id='M01-long-pieces', property='M01', pkg='model/wordpiece',
  edits=[(F, '''		end := charLen
		var currStr''', '''		end := min(charLen, start+16)
		var currStr''')],
  demo=W + '''
func TestZZDemo(t *testing.T) {
	w := strings.Repeat("a", 17)
	zz(t, model.Vocab{"[UNK]": 0, "a": 1, "##a": 3, w: 2}, w, 100, tokenizer.Token{Id: 2, Value: w, Offsets: []int{0, 17}})
}
''', needs='A piece of the vocabulary longer than 16 characters', breaks='It is never used'),
 dict(id='M01-keeps-pieces', property='M01', pkg='model/wordpiece',
  edits=[(F, '''	} else {
		outputTokens = append(outputTokens, subTokens...)
	}

	return outputTokens, nil''', '''	}
	if !isBad || start > 0 && charLen-start == 1 {
		outputTokens = append(subTokens, outputTokens...)
	}

	return outputTokens, nil''')],
  demo=W + '''
func TestZZDemo(t *testing.T) {
	zz(t, model.Vocab{"[UNK]": 0, "a": 1}, "ab", 100, tokenizer.Token{Id: 0, Value: "[UNK]", Offsets: []int{0, 2}})
}
''', needs='Only the last character of a word cannot be matched', breaks='The pieces before it are returned as well as the unknown token'),
 dict(id='M01-file-trim', property='M01', pkg='model/wordpiece',
  edits=[(F, '''		line = scanner.Text()
		vocab[line] = idx
		idx += 1
	}

	if err := scanner.Err(); err != nil {
		return retVal, err''', '''		line = string(bytes.TrimSpace(scanner.Bytes()))
		vocab[line] = idx
		idx += 1
	}

	if err := scanner.Err(); err != nil {
		return retVal, err'''), (F, '	"bufio"\n', '	"bufio"\n	"bytes"\n')],
  demo=W.replace('"reflect"','"os"\n	"reflect"') + '''
func TestZZDemo(t *testing.T) {
	f := t.TempDir() + "/v"
	os.WriteFile(f, []byte("[UNK]\\na\\n a\\n"), 0o644)
	wp, err := wordpiece.NewWordPieceFromFile(f, "[UNK]")
	if err != nil {
		t.Fatal(err)
	}
	if id, _ := wp.TokenToId("a"); id != 1 {
		t.Fatal(id)
	}
}
''', needs='A vocabulary file with a token that starts or ends with white space', breaks='The token is lost and another one may get its id'),
 dict(id='M02-zero-unknown', property='M02', pkg='model/wordlevel',
  edits=[(G, '''	id, ok = wl.vocab[token]
	if !ok {
''', '''	id = wl.vocab[token]
	if ok = id > 0; !ok {
''')],
  demo=L + '''
func TestZZDemo(t *testing.T) {
	m, _ := wordlevel.New(map[string]int{"a": 0, "u": 1}, "u")
	got, err := m.Tokenize("a")
	if err != nil || got[0].Id != 0 {
		t.Fatal(got, err)
	}
}
''', needs='The word whose id is 0 when that is not the unknown token', breaks='It gets the id of the unknown token'),
 dict(id='M02-id-range', property='M02', pkg='model/wordlevel',
  edits=[(G, '''	tok, ok := wl.vocabR[id]
	return tok, ok''', '''	tok, ok := wl.vocabR[id]
	return tok, ok && id < len(wl.vocab)''')],
  demo=L + '''
func TestZZDemo(t *testing.T) {
	m, _ := wordlevel.New(map[string]int{"a": 0, "b": 2}, "a")
	if tok, ok := m.IdToToken(2); !ok || tok != "b" {
		t.Fatal(tok, ok)
	}
}
''', needs='A vocabulary with gaps in its ids', breaks='The token with the highest id is not found by its id'),
 dict(id='M02-offset-chars', property='M02', pkg='model/wordlevel',
  edits=[(G, '		Offsets: []int{0, len(token)},', '		Offsets: []int{0, len([]rune(token))},')],
  demo=L + '''
func TestZZDemo(t *testing.T) {
	m, _ := wordlevel.New(map[string]int{"é": 0}, "é")
	got, err := m.Tokenize("é")
	if err != nil || !reflect.DeepEqual(got[0].Offsets, []int{0, 2}) {
		t.Fatal(got, err)
	}
}
''', needs='A word with multi-byte characters', breaks='The token does not span the whole word'),
]
