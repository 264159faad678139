H = 'package normalizer\n\nimport "testing"\n\n'
SEEDS = [
 dict(id='N01-filter-long-run', property='N01', pkg='normalizer',
  edits=[('normalizer/normalized.go', '''					Changes: -(removed),
				})
				removed = 0''', '''					Changes: -(removed),
				})
				removed /= 4''')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("ab----cd")
	n = n.Filter(func(r rune) bool { return r != '-' })
	if got := n.RangeOriginal(NewRange(2, 3, NormalizedTarget)); got != "c" {
		t.Fatalf("c stands for %q", got)
	}
	if got := n.RangeOriginal(NewRange(1, 2, NormalizedTarget)); got != "b" {
		t.Fatalf("b stands for %q", got)
	}
	if got := n.RangeOriginal(NewRange(0, 1, NormalizedTarget)); got != "a" {
		t.Fatalf("a stands for %q", got)
	}
}
''', needs='four or more consecutive characters removed in the middle, with two characters before them', breaks='characters before the removed run are aligned one place too far'),
 dict(id='N01-slice-shift', property='N01', pkg='normalizer',
  edits=[('normalizer/normalized.go', '	sOriginalShift = n.originalShift + oRange.start\n', '	sOriginalShift = max(n.originalShift, oRange.start)\n	if n.originalShift == 0 || oRange.start == 0 || n.alignments[0][0] == 0 {\n		sOriginalShift = n.originalShift + oRange.start\n	}\n')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("ab cd ef")
	s := n.Slice(NewRange(3, 8, NormalizedTarget))
	s = s.Filter(func(r rune) bool { return r != 'c' })
	s = s.Slice(NewRange(2, 4, NormalizedTarget))
	if s.Shift() != 6 {
		t.Fatalf("shift %d of %q", s.Shift(), s.GetOriginal())
	}
}
''', needs='a slice of a slice whose first original character was removed in between', breaks='the slice reports a wrong place in the source'),
 dict(id='N02-strip-right-ascii', property='N02', pkg='normalizer',
  edits=[('normalizer/normalized.go', 'if !unicode.IsSpace(runes[i]) {', 'if !unicode.IsSpace(runes[i]) || (runes[i] > unicode.MaxLatin1 && i == leadingSpaces+1) {')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("a\\u2003").Strip()
	if n.GetNormalized() != "a" {
		t.Fatalf("%q", n.GetNormalized())
	}
}
''', needs='a single trailing wide Unicode space after one character', breaks='trailing white space stays'),
 dict(id='N02-bert-compat-ideographs', property='N02', pkg='normalizer',
  edits=[('normalizer/bert.go', '{0xf900, 0xfaff, 1},', '{0xf900, 0xfad9, 1},')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	b := NewBertNormalizer(true, true, true, false)
	n, err := b.Normalize(NewNormalizedFrom("a\\ufaffb"))
	if err != nil {
		t.Fatal(err)
	}
	if n.GetNormalized() != "a \\ufaff b" {
		t.Fatalf("%q", n.GetNormalized())
	}
}
''', needs='a character at the very end of the compatibility ideographs block', breaks='it is not surrounded by spaces'),
 dict(id='N02-lower-mn-order', property='N02', pkg='normalizer',
  edits=[('normalizer/bert.go', 'return unicode.In(c, cjk)', 'return unicode.In(c, cjk) && !unicode.Is(unicode.Nl, c)'),
         ('normalizer/normalized.go', 'return !unicode.Is(unicode.Mn, r)\n	})', 'return !unicode.Is(unicode.Mn, r) || (r >= 0x900 && r < 0xa00)\n	})')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("\\u0915\\u093c").RemoveAccents()
	if n.GetNormalized() != "\\u0915" {
		t.Fatalf("%q", n.GetNormalized())
	}
}
''', needs='a nonspacing mark of Devanagari', breaks='the mark is kept'),
 dict(id='S01-merge-next-three', property='S01', pkg='normalizer',
  edits=[('normalizer/normalized.go', '''					acc[len(acc)-1].Offsets[0] = m.Offsets[0]
				} else {
					acc = append(acc, OffsetsMatch{Offsets: m.Offsets, Match: false})
				}
			} else {
				acc = append(acc, OffsetsMatch{Offsets: m.Offsets, Match: false})
			}

			previousMatch = m.Match''', '''					acc[len(acc)-1].Offsets[0] = m.Offsets[0]
				} else {
					acc = append(acc, OffsetsMatch{Offsets: m.Offsets, Match: false})
				}
			} else {
				acc = append(acc, OffsetsMatch{Offsets: m.Offsets, Match: false})
			}

			previousMatch = m.Match && !(previousMatch && i == 1)''')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	n := NewNormalizedFrom("--a--b")
	var got []string
	for _, s := range n.Split(NewRunePattern('-'), MergedWithNextBehavior) {
		got = append(got, s.GetNormalized())
	}
	if len(got) != 4 || got[0] != "-" || got[1] != "-a" {
		t.Fatalf("%q", got)
	}
	n = NewNormalizedFrom("---b")
	got = nil
	for _, s := range n.Split(NewRunePattern('-'), MergedWithNextBehavior) {
		got = append(got, s.GetNormalized())
	}
	if len(got) != 3 {
		t.Fatalf("%q", got)
	}
}
''', needs='three delimiters in a row at the start of the text', breaks='two delimiters are glued together'),
 dict(id='S01-string-last-unmatched', property='S01', pkg='normalizer',
  edits=[('normalizer/pattern.go', '''			if current[1] != next[0] { // not continuous matches''', '''			if current[1]+len(matches)/9 < next[0] || current[1] < next[0]-1 { // not continuous matches''')],
  demo=H + '''func TestZZDemo(t *testing.T) {
	m := NewStringPattern("-").FindMatches("-a-b-c-d-e-f-g-h-i")
	end := 0
	for _, x := range m {
		if x.Offsets[0] != end {
			t.Fatalf("%v", m)
		}
		end = x.Offsets[1]
	}
	if end != 18 {
		t.Fatalf("%v", m)
	}
}
''', needs='nine or more matches, one character apart', breaks='the tiles leave a gap'),
]
