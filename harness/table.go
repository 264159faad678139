package main

import (
	"bufio"
	"os"
	"sort"
	"unicode"
	"unicode/utf8"

	"golang.org/x/text/unicode/norm"
)

// The characters the specifications know about. Everything the table says about
// them comes from the Go standard library and golang.org/x/text, never from the
// library under test.
var alphabetSeed = []rune{
	0, 1, 7, '\t', '\n', '\v', '\f', '\r', 0x1b, 0x1f, ' ', '!', '"', '#', '\'', ',', '-', '.', '/', '0', '1', '9', ':', '@',
	'A', 'B', 'Z', '[', '\\', '_', '`', 'a', 'b', 'c', 'd', 'e', 'f', 'i', 'l', 'm', 'r', 's', 't', 'v', 'z', '{', '|', '~', 0x7f,
	0x80, 0x85, 0xa0, 0xa1, 0xad, 0xb2, 0xb7, 0xbd, 0xbf, 0xc5, 0xdf, 0xe9, 0xff, 0x130, 0x131, 0x17f,
	0x1c4, 0x1c5, 0x23a, 0x2c65, 0x300, 0x301, 0x307, 0x323, 0x327, 0x340, 0x344, 0x345, 0x37e, 0x391, 0x3a3, 0x3c3, 0x3c2,
	0x410, 0x416, 0x43d, 0x5d0, 0x5bc, 0x628, 0x660, 0x915, 0x93c, 0x958, 0x966, 0x9c7, 0x9be, 0xe01, 0xe33, 0x1100, 0x1161, 0x11a8, 0xac00, 0xac01,
	0x600, 0xfe0f, 0x1f468, 0x1f3fd, 0x7ff, 0x800, 0xffff, 0x10000,
	0x1e9b, 0x1e9e, 0x1ea4, 0x1f80, 0x1680, 0x2000, 0x2003, 0x200b, 0x200c, 0x200d, 0x203f, 0x378, 0x200e, 0x2028, 0x2014, 0x2019, 0x201c, 0x20ac, 0x2116, 0x2126, 0x212b, 0x2160, 0x2167, 0x2581,
	0x3000, 0x3001, 0x3042, 0x3044, 0x304b, 0x30a2, 0x30ab, 0x3099, 0x30fc, 0x33ff, 0x3400, 0x4db5, 0x4dbf, 0x4dc0, 0x4dff, 0x4e00, 0x4e2d, 0x6587, 0x6f22, 0x9fff, 0xa000, 0xf900, 0xfaff, 0xfb00, 0xfb01, 0xfb2a,
	0xfdfa, 0xfeff, 0xff01, 0xff21, 0xff76, 0xff9e, 0xfffd, 0x10400, 0x10428, 0x1d53e, 0x1d560, 0x1f600, 0x1f1e6, 0x20000, 0x2a6df, 0x2a6e0, 0x2a700, 0x2ceaf, 0x2ceb0, 0x2f800, 0x2fa1f, 0x2fa20, 0xe0001, 0x10ffff,
}

func scriptOf(r rune) string {
	names := []string{}
	for n := range unicode.Scripts {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if unicode.Is(unicode.Scripts[n], r) {
			return n
		}
	}
	return "Unknown"
}

// graphemeClass gives the Grapheme_Cluster_Break class of a character (UAX #29),
// EP for pictographs.
func graphemeClass(r rune) string {
	in := func(tab ...*unicode.RangeTable) bool { return unicode.In(r, tab...) }
	pic := r == 0xa9 || r == 0xae || r == 0x203c || r == 0x2049 || r == 0x2122 || r == 0x2139 || 0x2194 <= r && r <= 0x2199 || r == 0x3030 || r == 0x303d ||
		r == 0x3297 || r == 0x3299 || 0x1f300 <= r && r <= 0x1f64f || 0x1f680 <= r && r <= 0x1f6ff || 0x1f90c <= r && r <= 0x1faff
	switch {
	case r == '\r':
		return "CR"
	case r == '\n':
		return "LF"
	case r == 0x200d:
		return "ZWJ"
	case 0x1f3fb <= r && r <= 0x1f3ff, in(unicode.Mn, unicode.Me, unicode.Other_Grapheme_Extend):
		return "EX"
	case in(unicode.Prepended_Concatenation_Mark):
		return "PP"
	case in(unicode.Cc, unicode.Cf, unicode.Zl, unicode.Zp):
		return "CN"
	case 0x1f1e6 <= r && r <= 0x1f1ff:
		return "RI"
	case in(unicode.Mc), r == 0xe33, r == 0xeb3:
		return "SM"
	case 0x1100 <= r && r <= 0x115f:
		return "L"
	case 0x1160 <= r && r <= 0x11a7:
		return "V"
	case 0x11a8 <= r && r <= 0x11ff:
		return "T"
	case 0xac00 <= r && r <= 0xd7a3:
		if (r-0xac00)%28 == 0 {
			return "LV"
		}
		return "LVT"
	case pic:
		return "EP"
	}
	return "XX"
}

func closure() []rune {
	set := map[rune]bool{}
	var todo []rune
	add := func(r rune) {
		if r != utf8.RuneError && !utf8.ValidRune(r) {
			return
		}
		if !set[r] {
			set[r] = true
			todo = append(todo, r)
		}
	}
	for _, r := range alphabetSeed {
		add(r)
	}
	for r := rune(0x21); r < 0x144; r++ { // ASCII, Latin-1 and the characters bytes are written as
		add(r)
	}
	for len(todo) > 0 {
		r := todo[0]
		todo = todo[1:]
		add(unicode.ToLower(r))
		add(unicode.ToUpper(r))
		for _, f := range []norm.Form{norm.NFC, norm.NFD, norm.NFKC, norm.NFKD} {
			for _, x := range f.String(string(r)) {
				add(x)
			}
		}
		if len(todo) == 0 {
			var all []rune
			for x := range set {
				all = append(all, x)
			}
			for _, x := range all {
				for _, y := range all {
					if c, ok := compose(x, y); ok {
						add(c)
					}
				}
			}
		}
	}
	var out []rune
	for r := range set {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

func compose(x, y rune) (rune, bool) {
	s := norm.NFC.String(string(x) + string(y))
	if utf8.RuneCountInString(s) != 1 || norm.NFC.String(string(x)) != string(x) {
		return 0, false
	}
	r, _ := utf8.DecodeRuneInString(s)
	return r, true
}

func writeTable(path string) {
	out, err := os.Create(path)
	check(err)
	w := bufio.NewWriter(out)
	all := closure()
	for _, r := range all {
		s := string(r)
		b := func(f norm.Form) int { return b2i(f.PropertiesString(s).BoundaryBefore()) }
		comp := [][]int{}
		for _, y := range all {
			if c, ok := compose(r, y); ok {
				comp = append(comp, []int{int(y), int(c)})
			}
		}
		check(writeJSON(w, M{"c": int(r), "low": int(unicode.ToLower(r)), "up": int(unicode.ToUpper(r)),
			"dec": toCps(norm.NFD.String(s)), "kdec": toCps(norm.NFKD.String(s)), "ccc": int(norm.NFD.PropertiesString(s).CCC()),
			"bd": []int{b(norm.NFC), b(norm.NFD), b(norm.NFKC), b(norm.NFKD)}, "comp": comp,
			"sp": b2i(unicode.IsSpace(r)), "mn": b2i(unicode.Is(unicode.Mn, r)), "ctl": b2i(unicode.In(r, unicode.Cc, unicode.Cf)),
			"p": b2i(unicode.IsPunct(r)), "num": b2i(unicode.IsNumber(r)), "dig": b2i(unicode.IsDigit(r)), "let": b2i(unicode.IsLetter(r)), "w": b2i(unicode.In(r, unicode.L, unicode.M, unicode.Nd, unicode.Nl, unicode.Pc) || r == 0x200c || r == 0x200d), "sc": scriptOf(r), "g": graphemeClass(r)}))
	}
	check(w.Flush())
	check(out.Close())
}

var alphabet []rune

func letters() []rune {
	if alphabet == nil {
		alphabet = closure()
	}
	return alphabet
}
