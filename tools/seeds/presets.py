# The demonstrations of the byte-level ones are built with -trimpath: the code's
# directory is then a relative one, which they lay out in a scratch directory.
LAY = '''package pretrained

import (
	"encoding/json"
	"os"
	"path/filepath"
	"testing"

	"github.com/sugarme/tokenizer"
)

func zlay(t *testing.T, files map[string]string) string {
	base, err := filepath.EvalSymlinks(t.TempDir())
	if err != nil {
		t.Fatal(err)
	}
	old, err := os.Getwd()
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { os.Chdir(old) })
	if err := os.Chdir(base); err != nil {
		t.Fatal(err)
	}
	dir := filepath.Join(base, "github.com/sugarme/tokenizer/pretrained/model")
	os.MkdirAll(dir, 0o755)
	for n, c := range files {
		if err := os.WriteFile(filepath.Join(dir, n), []byte(c), 0o644); err != nil {
			t.Fatal(err)
		}
	}
	return base
}

func zvocab(ts ...string) string {
	m := map[string]int{}
	for i, t := range ts {
		m[t] = i
	}
	b, _ := json.Marshal(m)
	return string(b)
}

func zencode(t *testing.T, tk *tokenizer.Tokenizer, s string) *tokenizer.Encoding {
	e, err := tk.EncodeSingle(s, true)
	if err != nil {
		t.Fatal(err)
	}
	return e
}

const zbert = "[PAD]\\n[UNK]\\n[CLS]\\n[SEP]\\n[MASK]\\na\\n##b\\ncafe\\ncaf\\u00e9\\nA\\n##c\\n"

var _ = zvocab
var _ = zencode
'''
BERT, LARGE = '"bert-base-uncased-vocab.txt"', '"bert-large-cased-whole-word-masking-finetuned-squad-vocab.txt"'
def t(body): return LAY + '\nfunc TestZZDemo(t *testing.T) {\n' + body + '}\n'
SEEDS = [
 dict(id='T06-bert-swapped', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/bert.go', '''	clsId, ok := tk.TokenToId("[CLS]")
	if !ok {
		log.Fatalf("Cannot find ID for [CLS] token.\\n")
	}
	cls := processor.PostToken{Id: clsId, Value: "[CLS]"}

	postProcess := processor.NewBertProcessing(sep, cls)
	tk.WithPostProcessor(postProcess)

	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[MASK]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[SEP]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true)})

	wpDecoder := decoder.NewWordPieceDecoder''', '''	clsId, ok := tk.TokenToId("[CLS]")
	if !ok {
		log.Fatalf("Cannot find ID for [CLS] token.\\n")
	}
	cls := processor.PostToken{Id: clsId, Value: "[CLS]"}
	if clsId > sepId {
		// the classification token is the first of the two
		sep.Id, cls.Id = cls.Id, sep.Id
	}

	postProcess := processor.NewBertProcessing(sep, cls)
	tk.WithPostProcessor(postProcess)

	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[MASK]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[SEP]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true)})

	wpDecoder := decoder.NewWordPieceDecoder''')],
  demo=t('''	zlay(t, map[string]string{''' + LARGE + ''': "[PAD]\\n[UNK]\\n[SEP]\\n[CLS]\\n[MASK]\\na\\n"})
	tk := BertLargeCasedWholeWordMaskingSquad()
	e := zencode(t, tk, "a")
	if e.Tokens[0] != "[CLS]" || e.Ids[0] != 3 || e.Ids[2] != 2 {
		t.Fatalf("%v %v", e.Tokens, e.Ids)
	}
'''), needs='a vocabulary file that lists [SEP] before [CLS]', breaks='the ids of the special tokens are those of the other'),
 dict(id='T06-large-mask-plain', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/bert.go', '''	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[MASK]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[SEP]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true)})

	wpDecoder := decoder.NewWordPieceDecoder''', '''	tk.AddTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[MASK]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[SEP]", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("[CLS]", true)})

	wpDecoder := decoder.NewWordPieceDecoder''')],
  demo=t('''	zlay(t, map[string]string{''' + LARGE + ''': zbert})
	tk := BertLargeCasedWholeWordMaskingSquad()
	if got := tk.Decode([]int{5, 4, 6}, true); got != "ab" {
		t.Fatalf("%q", got)
	}
'''), needs='decoding without special tokens, with a [MASK] among them', breaks='the mask token is not skipped'),
 dict(id='T06-bert-dir', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/bert.go', '''	util.CdToThis()
	defer util.CdBack(currDir)

	vocabFile := "model/bert-base-uncased-vocab.txt"
	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
	if err != nil {
		log.Fatal(err)
	}
''', '''	util.CdToThis()
	vocabFile := "model/bert-base-uncased-vocab.txt"
	model, err := wordpiece.NewWordPieceFromFile(vocabFile, "[UNK]")
	if err != nil {
		log.Fatal(err)
	}
	if _, ok := model.TokenToId("[PAD]"); ok {
		util.CdBack(currDir)
	}
''')],
  demo=t('''	base := zlay(t, map[string]string{''' + BERT + ''': "[UNK]\\n[CLS]\\n[SEP]\\n[MASK]\\na\\n"})
	BertBaseUncased()
	dir, _ := os.Getwd()
	if dir != base {
		t.Fatalf("moved to %s", dir)
	}
'''), needs='a vocabulary file without [PAD]', breaks='the program is left in another directory'),
 dict(id='T06-gpt2-trim', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/gpt2.go', 'pretok.SetTrimOffsets(trimOffsets)', 'pretok.SetTrimOffsets(trimOffsets && !addPrefixSpace)')],
  demo=t('''	zlay(t, map[string]string{"gpt2-vocab.json": zvocab("a", "\\u0120", "\\u0120a", "b", "\\u0120b"), "gpt2-merges.txt": "#version: 0.2\\n\\u0120 a\\n\\u0120 b\\n"})
	e := zencode(t, GPT2(true, true), "a b")
	if len(e.Offsets) != 2 || e.Offsets[1][0] != 2 || e.Offsets[1][1] != 3 {
		t.Fatalf("%v %v", e.Tokens, e.Offsets)
	}
'''), needs='both options asked for, and a token that starts with a space', breaks='offsets include the space although trimming is asked for'),
 dict(id='T06-rob-prefix', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/roberta.go', '''	mergesFile := "model/roberta-base-squad2-merges.txt"
	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
	if err != nil {
		log.Fatal(err)
	}

	tk := tokenizer.NewTokenizer(model)

	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("</s>", true)})

	blPreTokenizer := pretokenizer.NewByteLevel()
	blPreTokenizer.SetAddPrefixSpace(addPrefixSpace)
''', '''	mergesFile := "model/roberta-base-squad2-merges.txt"
	model, err := bpe.NewBpeFromFiles(vocabFile, mergesFile)
	if err != nil {
		log.Fatal(err)
	}

	tk := tokenizer.NewTokenizer(model)

	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("<s>", true)})
	tk.AddSpecialTokens([]tokenizer.AddedToken{tokenizer.NewAddedToken("</s>", true)})

	blPreTokenizer := pretokenizer.NewByteLevel()
	if addPrefixSpace || trimOffsets {
		blPreTokenizer.SetAddPrefixSpace(addPrefixSpace)
	}
''')],
  demo=t('''	zlay(t, map[string]string{"roberta-base-squad2-vocab.json": zvocab("<s>", "<pad>", "</s>", "a", "\\u0120", "\\u0120a"), "roberta-base-squad2-merges.txt": "#version: 0.2\\n\\u0120 a\\n"})
	e := zencode(t, RobertaBaseSquad2(false, false), "a")
	if len(e.Tokens) != 3 || e.Tokens[1] != "a" {
		t.Fatalf("%q", e.Tokens)
	}
'''), needs='neither option asked for', breaks='the first word gets a space that was not asked for'),
 dict(id='T06-large-accents', property='T06', pkg='pretrained', flags='-trimpath ',
  edits=[('pretrained/bert.go', 'wpDecoder := decoder.NewWordPieceDecoder("##", true)', 'wpDecoder := decoder.NewWordPieceDecoder("##", bertNormalizer.Lowercase)')],
  demo=t('''	zlay(t, map[string]string{''' + LARGE + ''': zbert + "do\\nn't\\n"})
	tk := BertLargeCasedWholeWordMaskingSquad()
	if got := tk.Decode([]int{11, 12}, true); got != "don't" {
		t.Fatalf("%q", got)
	}
'''), needs='decoding a text that cleaning up changes', breaks='decoded text of the cased tokenizer is not cleaned up'),
]
