H = '''package tokenizer

import "testing"

func zenc(n, base int) *Encoding {
	e := &Encoding{Overflowing: []Encoding{}, SequenceRanges: map[int]Range{}}
	for i := 0; i < n; i++ {
		e.Ids = append(e.Ids, base+i)
		e.TypeIds = append(e.TypeIds, 0)
		e.Tokens = append(e.Tokens, string(rune('a'+i)))
		e.Offsets = append(e.Offsets, []int{i, i + 1})
		e.SpecialTokenMask = append(e.SpecialTokenMask, 0)
		e.AttentionMask = append(e.AttentionMask, 1)
		e.Words = append(e.Words, i)
	}
	return e
}

'''
SEEDS = [
 dict(id='E01-drop-last-window', property='E01', pkg='.',
  edits=[('encoding.go', 'for int(partSize)*partId < len(oIds) {', 'for int(partSize)*partId < len(oIds) && (stride == 0 || len(oIds)-int(partSize)*partId >= stride) {')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	e := zenc(8, 10)
	e, err := e.Truncate(4, 3)
	if err != nil {
		t.Fatal(err)
	}
	last := e.Overflowing[len(e.Overflowing)-1]
	if last.Ids[len(last.Ids)-1] != 17 {
		t.Fatalf("tail lost: %v", e.Overflowing)
	}
}
''', needs='a stride larger than the remainder of the last window', breaks='the last window is dropped: tokens of the tail are lost'),
 dict(id='E03-merge-overflow-base', property='E03', pkg='.',
  edits=[('encoding.go', '''		nEncoding := e.Clone()
		merge := nEncoding.MergeWith(otherO.Clone(), growingOffsets)''', '''		nEncoding := e.Clone()
		merge := nEncoding.MergeWith(otherO.Clone(), growingOffsets && len(enOverflowings) == 0)''')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	a, b := zenc(3, 10), zenc(2, 20)
	a.Overflowing = []Encoding{*zenc(1, 30)}
	b.Overflowing = []Encoding{*zenc(1, 40)}
	m := a.MergeWith(b, true)
	last := m.Overflowing[len(m.Overflowing)-1]
	if last.Offsets[3][0] != 3 {
		t.Fatalf("offsets %v", last.Offsets)
	}
}
''', needs='both encodings have overflow parts and growing offsets', breaks='offsets of the combined overflow parts do not grow'),
 dict(id='E05-word-chars-empty-first', property='E05', pkg='.',
  edits=[('encoding.go', 'if pos >= o[0] && pos < o[1] {', 'if pos >= o[0] && pos < o[1] || (pos == o[0] && i > 0 && o[0] == o[1] && e.SpecialTokenMask[i] == 0) {')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	e := zenc(3, 10)
	e.Offsets = [][]int{{0, 1}, {1, 1}, {1, 2}}
	if i, ok := e.Char2Token(1); !ok || i != 2 {
		t.Fatalf("got %d", i)
	}
}
''', needs='an ordinary token with empty offsets before the token containing the character', breaks='a token that does not contain the character is returned'),
 dict(id='E02-left-pad-over-target', property='E02', pkg='.',
  edits=[('processor/template.go', 'zzz', 'zzz')], demo='', needs='', breaks=''),
]
SEEDS = SEEDS[:3]
