package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"
	"unicode"

	"github.com/sugarme/tokenizer/normalizer"
	"github.com/sugarme/tokenizer/spm"
	"golang.org/x/text/unicode/norm"
)

// ---- abstract values

type node struct {
	N   string `json:"n"`
	Cs  cps    `json:"cs"`
	Neg int    `json:"neg"`
	C   string `json:"c"`
	S   cps    `json:"s"`
	L   *node  `json:"l"`
	R   *node  `json:"r"`
}

type pat struct {
	K string          `json:"k"`
	C json.RawMessage `json:"c"`
	S cps             `json:"s"`
	R *node           `json:"r"`
	P *pat            `json:"p"`
}

func reRune(c int) string { return fmt.Sprintf(`\x{%x}`, c) }

var reClass = map[string][2]string{
	"digit": {`\p{Nd}`, `\P{Nd}`}, "let": {`\p{L}`, `\P{L}`}, "num": {`\p{N}`, `\P{N}`}, "punct": {`\p{P}`, `\P{P}`},
	"mn": {`\p{Mn}`, `\P{Mn}`}, "word": {`\w`, `\W`}, "aspace": {`\s`, `\S`}, "any": {`.`, `\n`}, "all": {`[\s\S]`, `[^\s\S]`},
}

func (n *node) regex() string {
	switch n.N {
	case "set":
		s := "["
		if n.Neg == 1 {
			s = "[^"
		}
		for _, c := range n.Cs {
			s += reRune(c)
		}
		return s + "]"
	case "lit":
		s := ""
		for _, c := range n.S {
			s += reRune(c)
		}
		return "(?:" + s + ")"
	case "cls":
		return reClass[n.C][n.Neg]
	case "seq":
		return n.L.regex() + n.R.regex()
	case "alt":
		return "(?:" + n.L.regex() + "|" + n.R.regex() + ")"
	case "star":
		return "(?:" + n.L.regex() + ")*"
	case "plus":
		return "(?:" + n.L.regex() + ")+"
	case "opt":
		return "(?:" + n.L.regex() + ")?"
	case "end":
		return `\z`
	case "beg":
		return `\A`
	}
	check(fmt.Errorf("regex node %q", n.N))
	return ""
}

func inClass(cls string, r rune) bool {
	switch cls {
	case "space":
		return unicode.IsSpace(r)
	case "bspace":
		return unicode.IsSpace(r)
	case "punct":
		return unicode.IsPunct(r)
	case "num":
		return unicode.IsNumber(r)
	case "digit":
		return unicode.IsDigit(r)
	case "let":
		return unicode.IsLetter(r)
	case "mn":
		return unicode.Is(unicode.Mn, r)
	case "all":
		return true
	case "high":
		return r > 127
	case "sym":
		return !unicode.IsLetter(r) && !unicode.IsSpace(r)
	}
	check(fmt.Errorf("class %q", cls))
	return false
}

func (p *pat) make() normalizer.Pattern {
	switch p.K {
	case "rune":
		return normalizer.NewRunePattern(rune(parse[int](p.C)))
	case "str":
		return normalizer.NewStringPattern(p.S.str())
	case "fn":
		cls := parse[string](p.C)
		return normalizer.NewFnPattern(func(r rune) bool { return inClass(cls, r) })
	case "re":
		return normalizer.NewRegexpPattern(p.R.regex())
	case "inv":
		return normalizer.NewInvertPattern(p.P.make())
	}
	check(fmt.Errorf("pattern %q", p.K))
	return nil
}

type nrm struct {
	K       string `json:"k"`
	F       int    `json:"f"`
	Lower   int    `json:"lower"`
	Strip   int    `json:"strip"`
	L       int    `json:"l"`
	R       int    `json:"r"`
	S       cps    `json:"s"`
	P       *pat   `json:"p"`
	Clean   int    `json:"clean"`
	Chinese int    `json:"chinese"`
	Accents int    `json:"accents"`
	Ps      []*nrm `json:"ps"`
	Map     []rule `json:"map"`
}

var forms = []norm.Form{0, norm.NFC, norm.NFD, norm.NFKC, norm.NFKD}

// make builds the normalizer; where the library has several ways to build the
// same one, alt picks.
func (p *nrm) make(alt int) normalizer.Normalizer {
	switch p.K {
	case "nf":
		switch alt % 3 {
		case 0:
			return normalizer.NewUnicodeNormalizer(forms[p.F])
		case 1:
			return normalizer.NewNormalizer(normalizer.WithUnicodeNormalizer(forms[p.F]))
		}
		switch p.F {
		case 1:
			return normalizer.NewNFC()
		case 2:
			return normalizer.NewNFD()
		case 3:
			return normalizer.NewNFKC()
		default:
			return normalizer.NewNFKD()
		}
	case "lower":
		return normalizer.Lowercase()
	case "default":
		if p.Lower == 1 && p.Strip == 1 {
			switch alt % 3 {
			case 0:
				return normalizer.NewDefaultNormalizer()
			case 1:
				return normalizer.NewNormalizer()
			}
		}
		return normalizer.NewDefaultNormalizer(normalizer.WithLowercase(p.Lower == 1), normalizer.WithStrip(p.Strip == 1))
	case "strip":
		return normalizer.NewStrip(p.L == 1, p.R == 1)
	case "accents":
		return normalizer.NewStripAccents()
	case "prepend":
		return normalizer.NewPrepend(p.S.str())
	case "replace":
		switch p.P.K {
		case "str":
			return normalizer.NewReplace(normalizer.String, p.P.S.str(), p.S.str())
		case "re":
			return normalizer.NewReplace(normalizer.Regex, p.P.R.regex(), p.S.str())
		}
		return &normalizer.Replace{Pattern: p.P.make(), Content: p.S.str()}
	case "bert":
		if alt%2 == 1 {
			return normalizer.NewNormalizer(normalizer.WithBertNormalizer(p.Clean == 1, p.Lower == 1, p.Chinese == 1, p.Accents == 1))
		}
		return normalizer.NewBertNormalizer(p.Clean == 1, p.Lower == 1, p.Chinese == 1, p.Accents == 1)
	case "spm":
		m, err := spm.NewPrecompiledFrom(charsmap(p.Map, alt))
		check(err)
		return &normalizer.Precompiled{Precompiled: m}
	case "seq":
		var ns []normalizer.Normalizer
		for i, q := range p.Ps {
			ns = append(ns, q.make(alt+i))
		}
		return normalizer.NewSequence(ns)
	}
	check(fmt.Errorf("normalizer %q", p.K))
	return nil
}

type normStep struct {
	A    string          `json:"a"`
	Cls  string          `json:"cls"`
	Cs   cps             `json:"cs"`
	S    cps             `json:"s"`
	C    int             `json:"c"`
	D    int             `json:"d"`
	F    int             `json:"f"`
	L    int             `json:"l"`
	R    int             `json:"r"`
	P    json.RawMessage `json:"p"`
	Cm   [][]int         `json:"cm"`
	Init int             `json:"init"`
	On   int             `json:"on"`
	I    int             `json:"i"`
	J    int             `json:"j"`
	B    int             `json:"b"`
	K    int             `json:"k"`
}

type normCase struct {
	Text  cps        `json:"text"`
	Steps []normStep `json:"steps"`
}

func pairs(a [][]int) [][]int {
	out := [][]int{}
	for _, x := range a {
		out = append(out, []int{x[0], x[1]})
	}
	return out
}

func viewNorm(n *normalizer.NormalizedString) M {
	return M{"orig": toCps(n.GetOriginal()), "norm": toCps(n.GetNormalized()), "al": pairs(n.Alignments()),
		"ao": pairs(n.AlignmentsOriginal()), "sh": n.Shift()}
}

// bytePos is the byte position of the i-th character, -1 when there is none.
func bytePos(s string, i int) int {
	if i < 0 {
		return -1
	}
	k := 0
	for p := range s {
		if k == i {
			return p
		}
		k++
	}
	if k == i {
		return len(s)
	}
	return -1
}

func runNorm(raw json.RawMessage) any {
	c := parse[normCase](raw)
	n := normalizer.NewNormalizedFrom(c.Text.str())
	obs := []any{}
	for i, s := range c.Steps {
		var o M
		n, o = normStepDo(n, s, i+len(c.Text))
		obs = append(obs, o)
		if _, bad := o["panic"]; bad {
			break
		}
	}
	return M{"obs": obs}
}

func normStepDo(n *normalizer.NormalizedString, s normStep, alt int) (next *normalizer.NormalizedString, o M) {
	defer func() {
		if p := recover(); p != nil {
			next, o = n, M{"panic": firstLine(fmt.Sprint(p))}
		}
	}()
	next, ret := normStepRaw(n, s, alt)
	if next == nil {
		return n, M{"panic": "nil result"}
	}
	return next, M{"n": viewNorm(next), "ret": ret}
}

var skipped = []int{-1}

func changes(cm [][]int) []normalizer.ChangeMap {
	var out []normalizer.ChangeMap
	for _, x := range cm {
		out = append(out, normalizer.ChangeMap{RuneVal: string(rune(x[0])), Changes: x[1]})
	}
	return out
}

func consumed(cm [][]int) int {
	k := 0
	for _, x := range cm {
		if x[1] <= 0 {
			k += 1 - x[1]
		}
	}
	return k
}

func runeLen(s string) int { return len([]rune(s)) }

func normStepRaw(n *normalizer.NormalizedString, s normStep, alt int) (*normalizer.NormalizedString, any) {
	none := []int{}
	on := normalizer.IndexOn(normalizer.OriginalTarget)
	side, other := n.GetOriginal(), n.GetNormalized()
	if s.On == 1 {
		on = normalizer.NormalizedTarget
		side, other = other, side
	}
	_ = other
	switch s.A {
	case "filter":
		drop := map[rune]bool{}
		for _, c := range s.Cs {
			drop[rune(c)] = true
		}
		return n.Filter(func(r rune) bool {
			if s.Cls == "" {
				return !drop[r]
			}
			return !inClass(s.Cls, r)
		}), none
	case "prepend":
		return n.Prepend(s.S.str()), none
	case "append":
		return n.Append(s.S.str()), none
	case "lower":
		return n.Lowercase(), none
	case "upper":
		return n.Uppercase(), none
	case "map", "each":
		f := func(r rune) rune {
			if r == rune(s.C) {
				return rune(s.D)
			}
			return r
		}
		if s.A == "map" {
			return n.Map(f), none
		}
		return n.ForEach(f), none
	case "nf":
		switch s.F {
		case 1:
			return n.NFC(), none
		case 2:
			return n.NFD(), none
		case 3:
			return n.NFKC(), none
		default:
			return n.NFKD(), none
		}
	case "accents":
		return n.RemoveAccents(), none
	case "strip":
		switch {
		case s.L == 1 && s.R == 1:
			return n.Strip(), none
		case s.L == 1:
			return n.LStrip(), none
		case s.R == 1:
			return n.RStrip(), none
		}
		return n, none
	case "clear":
		n.Clear()
		return n, none
	case "replace":
		p := parse[pat](s.P)
		return n.Replace(p.make(), s.S.str()), none
	case "normalize":
		p := parse[nrm](s.P)
		out, err := p.make(alt).Normalize(n)
		if err != nil {
			return nil, none
		}
		return out, none
	case "transform":
		if s.Init+consumed(s.Cm) > runeLen(n.GetNormalized()) {
			return n, skipped
		}
		return n.Transform(changes(s.Cm), s.Init), none
	case "range":
		if s.I >= s.J || s.J > runeLen(side) {
			return n, skipped
		}
		a, b := bytePos(side, s.I), bytePos(side, s.J)
		x, y := a, b
		if s.On == 0 {
			// how much there is to replace is for the specification to say as well
			ao := n.AlignmentsOriginal()
			x, y = ao[a][0], ao[b-1][1]
		}
		if x > y || y > len(n.GetNormalized()) {
			return nil, none
		}
		if s.Init+consumed(s.Cm) > runeLen(n.GetNormalized()[x:y]) {
			return n, skipped
		}
		return n.TransformRange(normalizer.NewRange(a, b, on), changes(s.Cm), s.Init), none
	case "slice":
		if s.I >= s.J || s.J > runeLen(side) {
			return n, skipped
		}
		return n.Slice(normalizer.NewRange(bytePos(side, s.I), bytePos(side, s.J), on)), none
	case "slicebytes":
		if s.I == min(s.J, len(side)) {
			return n, skipped
		}
		if p := n.Slice(normalizer.NewRange(s.I, s.J, on)); p != nil {
			return n, []M{viewNorm(p)}
		}
		return n, none
	case "conv":
		r := n.ConvertOffset(normalizer.NewRange(s.I, s.J, on))
		if r == nil {
			return n, none
		}
		return n, r.Values()
	case "texts":
		if s.I >= s.J || s.J > runeLen(side) {
			return n, skipped
		}
		a, b := bytePos(side, s.I), bytePos(side, s.J)
		return n, []cps{toCps(n.Range(normalizer.NewRange(a, b, on))), toCps(n.RangeOriginal(normalizer.NewRange(a, b, on)))}
	case "rebuild":
		// the same string, put together again; of which only the first knows what is done to it next
		m := normalizer.NewNormalizedString(n.GetOriginal(), n.GetNormalized(), n.Alignments(), n.AlignmentsOriginal(), n.Shift())
		return m, []int{n.Len(), n.LenOriginal(), b2i(n.IsEmpty())}
	case "convert":
		t := n.GetNormalized()
		is := []int{s.I, s.J}
		of := is
		if s.K == 0 {
			of = nil
		}
		r := normalizer.NewRange(s.I, s.J, on)
		return n, M{"chars": normalizer.BytesToChar(t, is), "bytes": normalizer.CharToBytes(t, is), "of": toCps(normalizer.RangeOf(t, of)),
			"range": []int{r.Start(), r.End(), r.Len(), b2i(r.On() == on), len(r.Values()), r.Values()[0], r.Values()[1]}}
	case "kinds":
		out := [][]int{}
		for _, c := range n.GetNormalized() {
			out = append(out, []int{b2i(normalizer.IsChinese(c)), b2i(normalizer.IsBertWhitespace(c)), b2i(normalizer.IsWhitespace(c)),
				b2i(normalizer.IsPunctuation(c)), b2i(normalizer.IsBertPunctuation(c))})
		}
		return n, out
	case "match":
		p := parse[pat](s.P)
		out := [][]int{}
		for _, m := range p.make().FindMatches(n.GetNormalized()) {
			out = append(out, []int{m.Offsets[0], m.Offsets[1], b2i(m.Match)})
		}
		return n, out
	case "split":
		p := parse[pat](s.P)
		ps := n.Split(p.make(), normalizer.SplitDelimiterBehavior(s.B))
		out := []M{}
		for i := range ps {
			out = append(out, viewNorm(&ps[i]))
		}
		if s.K < len(ps) {
			return &ps[s.K], out
		}
		return n, out
	}
	check(fmt.Errorf("norm step %q", s.A))
	return nil, nil
}

// ---- random cases

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

var commonChars = []int{'a', 'b', 'A', 'e', ' ', ' ', ',', '.', '1', 'c', 'z'}

func randChar(r *rand.Rand) int {
	if r.Intn(3) > 0 {
		return pick(r, commonChars...)
	}
	for {
		c := int(letters()[r.Intn(len(letters()))])
		if c != 0xfffd || r.Intn(4) == 0 {
			return c
		}
	}
}

func randText(r *rand.Rand, max int) cps {
	out := cps{}
	n := r.Intn(far(max) + 1)
	narrow := r.Intn(3) == 0
	if r.Intn(20) == 0 {
		// the ends of what is encoded in 1, 2, 3 and 4 bytes, and what stands for what is not a character
		at := r.Intn(n + 1)
		defer func() {
			if at < len(out) {
				out[at] = pick(r, 0, 0x7f, 0x80, 0x7ff, 0x800, 0xffff, 0x10000, 0xfffd, 0xfffd, 0xfffd, 0x10ffff)
			}
		}()
	}
	set := []int{randChar(r), randChar(r), randChar(r)}
	word := n // a long word of plain letters from here on
	if max >= 8 && r.Intn(16) == 0 {
		word = r.Intn(n + 1)
		n = max + r.Intn(20)
	}
	for i := 0; i < n; i++ {
		if i > word {
			out = append(out, pick[int](r, 'a', 's', 't', 'E', 'r'))
			continue
		}
		if narrow {
			out = append(out, pick(r, set...))
		} else {
			out = append(out, randChar(r))
		}
	}
	return out
}

// oneOf is a character of the text, or any.
func oneOf(r *rand.Rand, t cps) int {
	if len(t) > 0 && r.Intn(4) > 0 {
		if c := t[r.Intn(len(t))]; c >= 0 && c != 0xfffd {
			return c
		}
	}
	for {
		if c := randChar(r); c != 0xfffd {
			return c
		}
	}
}

func subText(r *rand.Rand, t cps, max int) cps {
	out := cps{}
	for i := r.Intn(max + 1); i > 0; i-- {
		out = append(out, oneOf(r, t))
	}
	return out
}

func randRe(r *rand.Rand, t cps, depth int) M {
	k := r.Intn(8)
	if depth == 0 {
		k = r.Intn(2)
	}
	switch k {
	case 0:
		return M{"n": "set", "cs": append(subText(r, t, 2), oneOf(r, t)), "neg": b2i(r.Intn(4) == 0)}
	case 1:
		return M{"n": "cls", "c": pick(r, "digit", "let", "num", "punct", "word", "aspace"), "neg": b2i(r.Intn(4) == 0)}
	case 2, 3:
		return M{"n": "seq", "l": randRe(r, t, depth-1), "r": randRe(r, t, depth-1)}
	case 4:
		return M{"n": "alt", "l": randRe(r, t, depth-1), "r": randRe(r, t, depth-1)}
	case 5:
		return M{"n": "plus", "l": randRe(r, t, 0)}
	case 6:
		return M{"n": "star", "l": randRe(r, t, 0)}
	default:
		return M{"n": "opt", "l": randRe(r, t, depth-1)}
	}
}

func randPat(r *rand.Rand, t cps, depth int) M {
	switch r.Intn(5) {
	case 0:
		return M{"k": "rune", "c": oneOf(r, t)}
	case 1:
		if len(t) > 1 && r.Intn(2) == 0 {
			i := r.Intn(len(t) - 1)
			s := append(cps{}, t[i:i+1+r.Intn(2)]...)
			ok := true
			for _, c := range s {
				ok = ok && c >= 0 && c != 0xfffd
			}
			if ok {
				return M{"k": "str", "s": s}
			}
		}
		return M{"k": "str", "s": subText(r, t, 2)}
	case 2:
		return M{"k": "fn", "c": pick(r, "space", "bspace", "punct", "num", "let", "mn", "digit", "all", "high", "sym")}
	case 3:
		return M{"k": "re", "r": randRe(r, t, 2)}
	}
	if depth == 0 {
		return M{"k": "rune", "c": oneOf(r, t)}
	}
	return M{"k": "inv", "p": randPat(r, t, depth-1)}
}

func randNorm(r *rand.Rand, t cps, depth int) M {
	switch r.Intn(10) {
	case 9:
		return M{"k": "spm", "map": randMap(r, t)}
	case 0, 1:
		return M{"k": "nf", "f": 1 + r.Intn(4)}
	case 2:
		return M{"k": "lower"}
	case 3:
		return M{"k": "default", "lower": r.Intn(2), "strip": r.Intn(2)}
	case 4:
		return M{"k": "strip", "l": r.Intn(2), "r": r.Intn(2)}
	case 5:
		return M{"k": "accents"}
	case 6:
		return M{"k": "prepend", "s": subText(r, t, 2)}
	case 7:
		return M{"k": "bert", "clean": r.Intn(2), "chinese": r.Intn(2), "lower": r.Intn(2), "accents": r.Intn(2)}
	}
	if depth > 0 && r.Intn(2) == 0 {
		ps := []M{}
		for i := r.Intn(4); i > 0; i-- {
			ps = append(ps, randNorm(r, t, depth-1))
		}
		return M{"k": "seq", "ps": ps}
	}
	p := randPat(r, t, 0)
	for p["k"] == "inv" {
		p = randPat(r, t, 0)
	}
	return M{"k": "replace", "p": p, "s": subText(r, t, 2)}
}

func randNormStep(r *rand.Rand, t cps, kinds string) M {
	ks := strings.Fields(kinds)
	k := ks[r.Intn(len(ks))]
	s := M{"a": k}
	cm := func() [][]int {
		out := [][]int{}
		for i := r.Intn(4); i > 0; i-- {
			out = append(out, []int{oneOf(r, t), pick(r, 1, 0, 0, 0, -1, -2)})
		}
		return out
	}
	switch k {
	case "filter":
		s["cls"], s["cs"] = "", subText(r, t, 2)
		if r.Intn(3) == 0 {
			s["cls"] = pick(r, "space", "mn", "punct", "high")
		}
	case "prepend", "append":
		s["s"] = subText(r, t, 3)
	case "map", "each":
		s["c"], s["d"] = oneOf(r, t), randChar(r)
	case "nf":
		s["f"] = 1 + r.Intn(4)
	case "strip":
		s["l"], s["r"] = r.Intn(2), r.Intn(2)
	case "replace":
		s["p"], s["s"] = randPat(r, t, 0), subText(r, t, 3)
	case "normalize":
		s["p"] = randNorm(r, t, 1)
	case "transform":
		s["cm"], s["init"] = cm(), r.Intn(2)
	case "range":
		i := r.Intn(len(t) + 1)
		s["on"], s["i"], s["j"], s["cm"], s["init"] = r.Intn(2), i, i+1+r.Intn(3), cm(), r.Intn(2)
	case "slice", "texts":
		i := r.Intn(len(t) + 1)
		s["on"], s["i"], s["j"] = r.Intn(2), i, i+1+r.Intn(len(t)+1)
	case "convert":
		s["i"], s["k"] = r.Intn(len(t)+2), r.Intn(8)
		s["j"] = s["i"].(int) + r.Intn(len(t)+3)
		s["on"] = r.Intn(2)
	case "slicebytes", "conv":
		i := r.Intn(2*len(t) + 1)
		s["on"], s["i"], s["j"] = r.Intn(2), i, r.Intn(2*len(t)+2)
	case "match":
		s["p"] = randPat(r, t, 1)
	case "split":
		s["p"], s["b"], s["k"] = randPat(r, t, 1), r.Intn(5), r.Intn(4)
	}
	return s
}

const (
	n01Steps = "filter prepend append lower upper map each nf nf accents strip clear replace normalize transform range range slice slice slicebytes conv texts split convert convert rebuild"
	n02Steps = "normalize normalize normalize lower accents kinds"
	s01Steps = "match split split lower nf prepend"
)

func genNorm(kinds string, maxSteps int) generator {
	return func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			t := randText(r, 10)
			if r.Intn(12) == 0 && len(t) > 0 && kinds != n02Steps {
				t[r.Intn(len(t))] = -(0x80 + r.Intn(0x80))
				t = fixInvalid(t)
			}
			steps := []M{}
			for j := 1 + r.Intn(maxSteps); j > 0; j-- {
				steps = append(steps, randNormStep(r, t, kinds))
			}
			emit(M{"op": "norm", "text": t, "steps": steps})
		}
	}
}

// fixInvalid makes sure a text reads back as it was written (stray bytes could
// otherwise join into a character).
func fixInvalid(t cps) cps { return toCps(t.str()) }

func init() {
	runners["norm"] = runNorm
	generators["N01"] = genNorm(n01Steps, 6)
	generators["N02"] = genNorm(n02Steps, 3)
	generators["S01"] = genNorm(s01Steps, 3)
}
