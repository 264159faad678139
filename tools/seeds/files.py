H = '''package %s

import (
	"os"
	"path/filepath"
	"reflect"
	"testing"
)

var _ = os.WriteFile
var _ = filepath.Join
var _ = reflect.DeepEqual
'''
WP, WL, BP = (H % p for p in ('wordpiece', 'wordlevel', 'bpe'))
SEEDS = [
 dict(id='M04-wp-order', property='M04', pkg='model/wordpiece',
  edits=[('model/wordpiece/wordpiece.go', '		return sVocab[i].Value < sVocab[j].Value\n', '		return fmt.Sprintf("%d", sVocab[i].Value) < fmt.Sprintf("%d", sVocab[j].Value)\n')],
  demo=WP.replace('"testing"\n','"testing"\n\n\t"github.com/sugarme/tokenizer/model"\n') + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	vocab := map[string]int{"[UNK]": 0, "a": 1, "b": 2, "c": 3, "d": 4, "e": 5, "f": 6, "g": 7, "h": 8, "i": 9, "j": 10, "k": 11}
	v := model.Vocab(vocab)
	m := NewWordPieceBuilder().Vocab(&v).Build()
	if err := m.Save(dir); err != nil {
		t.Fatal(err)
	}
	r, err := NewWordPieceFromFile(filepath.Join(dir, "vocab.txt"), "[UNK]")
	if err != nil || !reflect.DeepEqual(r.GetVocab(), vocab) {
		t.Fatal(err, r.GetVocab())
	}
}
''', needs='A vocabulary of more than ten tokens', breaks='Tokens are stored in the order of their ids as text, so the loaded model has other ids'),
 dict(id='M04-wl-truncate', property='M04', pkg='model/wordlevel',
  edits=[('model/wordlevel/wordlevel.go', '	file, err := os.Create(vfile)\n', '	file, err := os.OpenFile(vfile, os.O_RDWR|os.O_CREATE, 0o666)\n')],
  demo=WL + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	for _, vocab := range []map[string]int{{"<unk>": 0, "word": 1, "other": 2}, {"<unk>": 0, "b": 1}} {
		m, err := New(vocab, "<unk>")
		if err != nil {
			t.Fatal(err)
		}
		if err := m.Save(dir); err != nil {
			t.Fatal(err)
		}
		r, err := NewWorldLevelFromFile(filepath.Join(dir, "vocab.txt"), "<unk>")
		if err != nil || !reflect.DeepEqual(r.GetVocab(), vocab) {
			t.Fatal(err, r.GetVocab())
		}
	}
}
''', needs='Saving a smaller model over the file of a larger one', breaks='The rest of the old file stays behind the new vocabulary'),
 dict(id='M04-wl-empty-line', property='M04', pkg='model/wordlevel',
  edits=[('model/wordlevel/wordlevel.go', '''		line = scanner.Text()
''', '''		line = scanner.Text()
		if line == "" {
			continue
		}
''')],
  demo=WL + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	vocab := map[string]int{"<unk>": 0, "": 1, "b": 2}
	m, err := New(vocab, "<unk>")
	if err != nil {
		t.Fatal(err)
	}
	if err := m.Save(dir); err != nil {
		t.Fatal(err)
	}
	r, err := NewWorldLevelFromFile(filepath.Join(dir, "vocab.txt"), "<unk>")
	if err != nil || !reflect.DeepEqual(r.GetVocab(), vocab) {
		t.Fatal(err, r.GetVocab())
	}
}
''', needs='A vocabulary with the empty token, not at its end', breaks='The line of that token is skipped, so all later ids are one too small'),
 dict(id='M04-bpe-flush', property='M04', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '	return w.Flush()\n', '	defer w.Flush()\n\n	return nil\n')],
  demo=BP + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.Symlink("/dev/full", filepath.Join(dir, "merges.txt")); err != nil {
		t.Fatal(err)
	}
	m := NewBPE(map[string]int{"a": 0, "b": 1, "ab": 2}, Merges{Pair{0, 1}: PairVal{0, 2}})
	if m.Save(dir) == nil {
		t.Fatal("no error from a full device")
	}
}
''', needs='A device that is full when the merges are written out', breaks='The merges are lost and Save reports no error'),
 dict(id='M04-bpe-fields', property='M04', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '		parts := strings.Split(line, " ")\n		if len(parts) != 2 {\n			err = ', '		parts := strings.Fields(line)\n		if len(parts) != 2 {\n			err = ')],
  demo=BP + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	vocab := map[string]int{"a": 0, "\\u00a0": 1, "a\\u00a0": 2}
	m := NewBPE(vocab, Merges{Pair{0, 1}: PairVal{0, 2}})
	if err := m.Save(dir); err != nil {
		t.Fatal(err)
	}
	r, err := NewBpeFromFiles(filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt"))
	if err != nil || !reflect.DeepEqual(*r.Merges, *m.Merges) {
		t.Fatal(err)
	}
}
''', needs='A merge of a token with a space character other than the blank', breaks='The saved merges cannot be loaded'),
 dict(id='M04-bpe-rank', property='M04', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '		pairVal := PairVal{lineNum, newId}\n\n		merges[pair] = pairVal\n\n		lineNum += 1\n	}\n\n	if', '		pairVal := PairVal{newId, newId}\n\n		merges[pair] = pairVal\n\n		lineNum += 1\n	}\n\n	if')],
  demo=BP + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	vocab := map[string]int{"a": 0, "b": 1, "c": 2, "ab": 4, "bc": 3}
	m := NewBPE(vocab, Merges{Pair{0, 1}: PairVal{0, 4}, Pair{1, 2}: PairVal{1, 3}})
	if err := m.Save(dir); err != nil {
		t.Fatal(err)
	}
	r, err := NewBpeFromFiles(filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt"))
	if err != nil {
		t.Fatal(err)
	}
	want, _ := m.Tokenize("abc")
	got, _ := r.Tokenize("abc")
	if !reflect.DeepEqual(got, want) {
		t.Fatal(got, want)
	}
}
''', needs='Merges whose order is not that of the ids of what they make', breaks='The loaded model merges in another order'),
 dict(id='M04-bpe-unread', property='M04', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '''	if s.Err() != nil {
		return nil, nil, s.Err()
	}
''', '''	if s.Err() != nil && lineNum > 0 {
		return nil, nil, s.Err()
	}
''')],
  demo=BP + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	if err := os.WriteFile(filepath.Join(dir, "vocab.json"), []byte(`{"a":0,"b":1}`), 0o644); err != nil {
		t.Fatal(err)
	}
	if err := os.Mkdir(filepath.Join(dir, "merges.txt"), 0o755); err != nil {
		t.Fatal(err)
	}
	if _, err := NewBpeFromFiles(filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt")); err == nil {
		t.Fatal("no error for merges that cannot be read")
	}
}
''', needs='A merges file which can be opened and not read', breaks='A model without merges is loaded and no error reported'),
 dict(id='M04-bpe-gap', property='M04', pkg='model/bpe',
  edits=[('model/bpe/bpe.go', '	for pair, pairVal := range *b.Merges {\n		pairRanks', '	for pair, pairVal := range *b.Merges {\n		if pairVal.NewId < pair.C1 && pairVal.NewId < pair.C2 {\n			continue\n		}\n		pairRanks')],
  demo=BP + '''
func TestZZDemo(t *testing.T) {
	dir := t.TempDir()
	m := NewBPE(map[string]int{"a": 1, "b": 2, "ab": 0}, Merges{Pair{1, 2}: PairVal{0, 0}})
	if err := m.Save(dir); err != nil {
		t.Fatal(err)
	}
	r, err := NewBpeFromFiles(filepath.Join(dir, "vocab.json"), filepath.Join(dir, "merges.txt"))
	if err != nil || len(*r.Merges) != 1 {
		t.Fatal(err, r)
	}
}
''', needs='A vocabulary in which a merge makes a token with a smaller id than both its parts', breaks='The merge is not saved'),
]
