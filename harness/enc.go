package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"reflect"
	"sort"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/pretokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// The encoding machine: slots of encodings and a history of operations on
// them (see spec/Encoding.tla).

const missingWord = -9

type tokJ struct {
	Id int `json:"id"`
	Ty int `json:"ty"`
	Tk cps `json:"tk"`
	O1 int `json:"o1"`
	O2 int `json:"o2"`
	W  int `json:"w"`
	Sp int `json:"sp"`
	At int `json:"at"`
}

type flatJ struct {
	T   []tokJ  `json:"t"`
	Rng [][]int `json:"rng"`
}

type encJ struct {
	T    []tokJ  `json:"t"`
	Over []flatJ `json:"over"`
	Rng  [][]int `json:"rng"`
}

func projTokens(e *tokenizer.Encoding) ([]tokJ, error) {
	n := len(e.Ids)
	if len(e.TypeIds) != n || len(e.Tokens) != n || len(e.Offsets) != n || len(e.SpecialTokenMask) != n || len(e.AttentionMask) != n {
		return nil, fmt.Errorf("lengths ids=%d types=%d tokens=%d offsets=%d special=%d attention=%d", n, len(e.TypeIds), len(e.Tokens), len(e.Offsets), len(e.SpecialTokenMask), len(e.AttentionMask))
	}
	if len(e.Words) != n && e.Words != nil {
		return nil, fmt.Errorf("lengths ids=%d words=%d", n, len(e.Words))
	}
	if e.Len() != n || e.IsEmpty() != (n == 0) || !reflect.DeepEqual(e.GetIds(), e.Ids) || !reflect.DeepEqual(e.GetTypeIds(), e.TypeIds) || !reflect.DeepEqual(e.GetTokens(), e.Tokens) ||
		!reflect.DeepEqual(e.GetOffsets(), e.Offsets) || !reflect.DeepEqual(e.GetSpecialTokenMask(), e.SpecialTokenMask) || !reflect.DeepEqual(e.GetAttentionMask(), e.AttentionMask) ||
		!reflect.DeepEqual(e.GetWords(), e.Words) || len(e.GetOverflowing()) != len(e.Overflowing) {
		return nil, fmt.Errorf("an accessor does not return its field")
	}
	out := []tokJ{}
	for i := 0; i < n; i++ {
		w := missingWord
		if e.Words != nil {
			w = e.Words[i]
		}
		if len(e.Offsets[i]) != 2 {
			return nil, fmt.Errorf("offsets of token %d: %v", i, e.Offsets[i])
		}
		out = append(out, tokJ{e.Ids[i], e.TypeIds[i], toCps(e.Tokens[i]), e.Offsets[i][0], e.Offsets[i][1], w, e.SpecialTokenMask[i], e.AttentionMask[i]})
	}
	return out, nil
}

func projRanges(e *tokenizer.Encoding) ([][]int, error) {
	out := [][]int{}
	for sid, r := range e.SequenceRanges {
		if len(r) == 0 {
			return nil, fmt.Errorf("empty range for sequence %d", sid)
		}
		for k := range r {
			if r[k] != r[0]+k {
				return nil, fmt.Errorf("range of sequence %d is not contiguous: %v", sid, r)
			}
		}
		out = append(out, []int{sid, r[0], r[len(r)-1] + 1})
	}
	sort.Slice(out, func(i, j int) bool { return out[i][0] < out[j][0] })
	return out, nil
}

func projEnc(e *tokenizer.Encoding) any {
	if e == nil {
		return M{"bad": "nil encoding"}
	}
	t, err := projTokens(e)
	if err != nil {
		return M{"bad": err.Error()}
	}
	rng, err := projRanges(e)
	if err != nil {
		return M{"bad": err.Error()}
	}
	over := []flatJ{}
	for k := range e.Overflowing {
		o := &e.Overflowing[k]
		ot, err := projTokens(o)
		if err != nil {
			return M{"bad": fmt.Sprintf("overflow %d: %v", k, err)}
		}
		or, err := projRanges(o)
		if err != nil {
			return M{"bad": fmt.Sprintf("overflow %d: %v", k, err)}
		}
		over = append(over, flatJ{ot, or})
	}
	return encJ{t, over, rng}
}

func buildFlat(f flatJ) tokenizer.Encoding {
	var (
		ids, types, sp, at, words []int
		toks                      []string
		offs                      [][]int
	)
	hasWords := true
	for _, t := range f.T {
		if t.W == missingWord {
			hasWords = false
		}
	}
	// spare capacity, as slices grown by append have
	ids = make([]int, 0, len(f.T)+3)
	offs = make([][]int, 0, len(f.T)+3)
	for _, t := range f.T {
		ids = append(ids, t.Id)
		types = append(types, t.Ty)
		toks = append(toks, t.Tk.str())
		offs = append(offs, []int{t.O1, t.O2})
		sp = append(sp, t.Sp)
		at = append(at, t.At)
		if hasWords {
			words = append(words, t.W)
		}
	}
	rng := map[int]tokenizer.Range{}
	for _, r := range f.Rng {
		rng[r[0]] = tokenizer.NewRange(r[1], r[2])
	}
	return *tokenizer.NewEncoding(ids, types, toks, offs, sp, at, []tokenizer.Encoding{},
		tokenizer.WithWordsEncodingOpt(words), tokenizer.WithSequenceRangeEncodingOpt(rng))
}

func buildEnc(e encJ) *tokenizer.Encoding {
	out := buildFlat(flatJ{e.T, e.Rng})
	for _, o := range e.Over {
		out.Overflowing = append(out.Overflowing, buildFlat(o))
	}
	return &out
}

type padJ struct {
	Id   int `json:"id"`
	Ty   int `json:"ty"`
	Tk   cps `json:"tk"`
	Left int `json:"left"`
}

func (p padJ) dir() tokenizer.PaddingDirection {
	if p.Left == 1 {
		return tokenizer.Left
	}
	return tokenizer.Right
}

type spTokJ struct {
	Id int `json:"id"`
	Tk cps `json:"tk"`
}

type pieceJ struct {
	K    string   `json:"k"`
	S    int      `json:"s"`
	Ty   int      `json:"ty"`
	Toks []spTokJ `json:"toks"`
}

type procJ struct {
	K      string   `json:"k"`
	Cls    spTokJ   `json:"cls"`
	Sep    spTokJ   `json:"sep"`
	Trim   int      `json:"trim"`
	Prefix int      `json:"prefix"`
	Single []pieceJ `json:"single"`
	Pair   []pieceJ `json:"pair"`
	Ps     []procJ  `json:"ps"`
}

// otherWay chooses between the ways the library has to put the same
// processor together.
func (p procJ) otherWay() bool {
	h := fnv.New32a()
	check(json.NewEncoder(h).Encode(p))
	return h.Sum32()%2 == 1
}

// textPieces gives the pieces as the library reads them from their text.
func textPieces(ps []string, one bool) processor.Template {
	var tpl processor.Template
	var err error
	switch {
	case len(ps) == 0:
	case one:
		tpl, err = processor.NewTemplateFromOne(strings.Join(ps, " "))
	default:
		tpl, err = processor.NewTemplate(ps)
	}
	check(err)
	return tpl
}

func (p procJ) build() tokenizer.PostProcessor {
	switch p.K {
	case "none":
		return nil
	case "bert":
		return processor.NewBertProcessing(processor.PostToken{Value: p.Sep.Tk.str(), Id: p.Sep.Id}, processor.PostToken{Value: p.Cls.Tk.str(), Id: p.Cls.Id})
	case "roberta":
		if p.otherWay() {
			rp := processor.NewRobertaProcessing(processor.PostToken{Value: p.Sep.Tk.str(), Id: p.Sep.Id}, processor.PostToken{Value: p.Cls.Tk.str(), Id: p.Cls.Id}, p.Trim != 1, p.Prefix != 1)
			rp.TrimOffsets(p.Trim == 1)
			rp.AddPrefixSpace(p.Prefix == 1)
			return rp
		}
		return processor.NewRobertaProcessing(processor.PostToken{Value: p.Sep.Tk.str(), Id: p.Sep.Id}, processor.PostToken{Value: p.Cls.Tk.str(), Id: p.Cls.Id}, p.Trim == 1, p.Prefix == 1)
	case "bytelevel":
		bl := pretokenizer.NewByteLevel()
		bl.TrimOffsets = p.Trim == 1
		bl.AddPrefixSpace = p.Prefix == 1
		return processor.NewByteLevelProcessing(bl)
	case "tpl":
		var sts []processor.SpecialToken
		other := p.otherWay()
		mk := func(ps []pieceJ) processor.Template {
			var texts []string
			var tpl processor.Template
			for _, q := range ps {
				if q.K == "seq" {
					name := "A"
					if q.S == 1 {
						name = "B"
					}
					texts = append(texts, fmt.Sprintf("$%s:%d", name, q.Ty))
					tpl = append(tpl, processor.NewSequencePiece(name, q.Ty))
					continue
				}
				var ids []int
				var toks []string
				name := "sp"
				for _, t := range q.Toks {
					ids = append(ids, t.Id)
					toks = append(toks, t.Tk.str())
					name += fmt.Sprintf("-%d", t.Id)
				}
				sts = append(sts, *processor.NewSpecialToken(name, ids, toks))
				texts = append(texts, fmt.Sprintf("%s:%d", name, q.Ty))
				tpl = append(tpl, processor.NewSpecialTokenPiece(name, q.Ty))
			}
			if other {
				return textPieces(texts, len(ps)%2 == 0)
			}
			return tpl
		}
		single, pair := mk(p.Single), mk(p.Pair)
		if other {
			m := map[string]processor.SpecialToken{}
			for _, t := range sts {
				m[t.Id] = t
			}
			return processor.NewTemplateProcessingFrom(&processor.TemplateProcessingDeserializer{Single: single, Pair: pair, SpecialTokens: processor.NewTokensFromMap(m)})
		}
		return processor.NewTemplateProcessing(single, pair, processor.NewTokensFrom(sts))
	case "sequ":
		var ps []tokenizer.PostProcessor
		for _, q := range p.Ps {
			ps = append(ps, q.build())
		}
		return processor.NewSequence(ps)
	}
	check(fmt.Errorf("unknown processor %q", p.K))
	return nil
}

type encStep struct {
	A      string          `json:"a"`
	I      int             `json:"i"`
	J      int             `json:"j"`
	Max    int             `json:"max"`
	Stride int             `json:"stride"`
	Strat  int             `json:"strat"`
	Target int             `json:"target"`
	P      json.RawMessage `json:"p"`
	Grow   int             `json:"grow"`
	Add    int             `json:"add"`
	N      int             `json:"n"`
	Ty     int             `json:"ty"`
}

func pairOpt(a, b int, ok bool) []int {
	if !ok {
		return []int{}
	}
	return []int{a, b}
}

func oneOpt(a int, ok bool) []int {
	if !ok {
		return []int{}
	}
	return []int{a}
}

func lookups(e *tokenizer.Encoding, n int) any {
	w2t, w2c, t2c, t2w, c2t, c2w, t2s, srg := [][]int{}, [][]int{}, [][]int{}, [][]int{}, [][]int{}, [][]int{}, [][]int{}, [][]int{}
	for i := -1; i <= n; i++ {
		a, b, ok := e.Word2Tokens(i)
		w2t = append(w2t, pairOpt(a, b, ok))
		v, ok := e.Word2Chars(i)
		if ok {
			w2c = append(w2c, []int{v[0], v[1]})
		} else {
			w2c = append(w2c, []int{})
		}
		v, ok = e.Token2Chars(i)
		if ok {
			t2c = append(t2c, []int{v[0], v[1]})
		} else {
			t2c = append(t2c, []int{})
		}
		a, ok = e.Token2Word(i)
		t2w = append(t2w, oneOpt(a, ok))
		a, ok = e.Char2Token(i)
		c2t = append(c2t, oneOpt(a, ok))
		a, ok = e.Char2Word(i)
		c2w = append(c2w, oneOpt(a, ok))
		a, ok = e.Token2Sequence(i)
		t2s = append(t2s, oneOpt(a, ok))
	}
	for s := -1; s <= 2; s++ {
		r, err := e.SequenceRange(s)
		if err != nil || len(r) == 0 {
			srg = append(srg, []int{})
		} else {
			srg = append(srg, []int{r[0], r[len(r)-1] + 1})
		}
	}
	sids := e.GetSequenceIds()
	if sids == nil {
		sids = []int{}
	}
	out := append([]int{}, sids...)
	for i := range out {
		if out[i] < 0 {
			out[i] = 0
		}
	}
	return M{"w2t": w2t, "w2c": w2c, "t2c": t2c, "t2w": t2w, "c2t": c2t, "c2w": c2w, "t2s": t2s, "srg": srg, "sids": out, "nseq": e.NSequences()}
}

func truncPairPre(a, b *tokenizer.Encoding, max, strat int) bool {
	tot := a.Len()
	if b != nil {
		tot += b.Len()
	}
	if max <= 0 {
		return false
	}
	if tot <= max {
		return true
	}
	switch strat {
	case 0:
		return true
	case 1:
		return a.Len() > tot-max
	default:
		return b != nil && b.Len() > tot-max
	}
}

// procPre tells whether an encoding is made of the given sequence alone.
func procPre(e *tokenizer.Encoding, sid int) bool {
	if e == nil || len(e.SequenceRanges) == 0 {
		return true
	}
	r, ok := e.SequenceRanges[sid]
	return ok && len(e.SequenceRanges) == 1 && len(r) == e.Len() && r[0] == 0
}

// encApply executes one step on the real encodings.
func encApply(slots []*tokenizer.Encoding, s encStep) any {
	at := func(i int) *tokenizer.Encoding {
		if i == 0 {
			return nil
		}
		return slots[i-1]
	}
	switch s.A {
	case "trunc":
		before := at(s.I)
		e, err := before.Truncate(s.Max, s.Stride)
		if err != nil {
			return []int{1}
		}
		slots[s.I-1] = e
		return []int{0}
	case "trunc2":
		if !truncPairPre(at(s.I), at(s.J), s.Max, s.Strat) {
			return []int{-1}
		}
		a, b := tokenizer.TruncateEncodings(at(s.I), at(s.J), &tokenizer.TruncationParams{MaxLength: s.Max, Strategy: tokenizer.TruncationStrategy(s.Strat), Stride: s.Stride})
		slots[s.I-1] = a
		if s.J != 0 {
			slots[s.J-1] = b
		}
		return []int{0}
	case "pad":
		p := parse[padJ](s.P)
		slots[s.I-1] = at(s.I).Pad(s.Target, p.Id, p.Ty, p.Tk.str(), p.dir())
		return []int{0}
	case "padall":
		p := parse[padJ](s.P)
		strat := tokenizer.NewPaddingStrategy(tokenizer.WithBatchLongest())
		if s.Target >= 0 {
			strat = tokenizer.NewPaddingStrategy(tokenizer.WithFixed(s.Target))
		}
		var in []tokenizer.Encoding
		for _, e := range slots {
			in = append(in, *e)
		}
		out := tokenizer.PadEncodings(in, tokenizer.PaddingParams{Strategy: *strat, Direction: p.dir(), PadId: p.Id, PadTypeId: p.Ty, PadToken: p.Tk.str()})
		if len(out) != len(in) {
			return M{"bad": fmt.Sprintf("%d encodings padded into %d", len(in), len(out))}
		}
		for i := range out {
			e := out[i]
			slots[i] = &e
		}
		return []int{0}
	case "merge":
		slots[s.I-1] = at(s.I).MergeWith(at(s.J), s.Grow == 1)
		return []int{0}
	case "mergeall":
		var rest []tokenizer.Encoding
		for _, e := range slots[1:] {
			rest = append(rest, *e)
		}
		if s.N == 1 {
			slots[0] = slots[0].Merge(rest, s.Grow == 1)
		} else {
			first := *slots[0]
			slots[0] = tokenizer.MergeEncodings(append([]tokenizer.Encoding{first}, rest...), s.Grow == 1)
		}
		return []int{0}
	case "clone":
		slots[s.J-1] = at(s.I).Clone()
		return []int{0}
	case "fromtoks":
		var toks []tokenizer.Token
		src := at(s.J)
		for k, id := range src.Ids {
			toks = append(toks, tokenizer.NewToken(id, src.Tokens[k], append([]int{}, src.Offsets[k]...)))
		}
		slots[s.I-1] = tokenizer.NewEncodingFromTokens(toks, s.Ty)
		return []int{0}
	case "types":
		ids := make([]int, at(s.I).Len())
		for k := range ids {
			ids[k] = s.Ty
		}
		at(s.I).SetTypeIds(ids)
		return []int{0}
	case "seqids": // these two write in place: not into what is shared
		slots[s.I-1] = at(s.I).Clone()
		at(s.I).SetSequenceIds(s.Ty)
		return []int{0}
	case "setword":
		if s.N >= len(at(s.I).GetWords()) {
			return []int{-1}
		}
		slots[s.I-1] = at(s.I).Clone()
		at(s.I).SetWord(s.N, s.Ty)
		return []int{0}
	case "take":
		before := at(s.I)
		out := []any{}
		for k, o := range before.TakeOverflowing() {
			t, err := projTokens(&o)
			if err != nil {
				return M{"bad": fmt.Sprintf("overflow %d: %v", k, err)}
			}
			rng, err := projRanges(&o)
			if err != nil {
				return M{"bad": fmt.Sprintf("overflow %d: %v", k, err)}
			}
			out = append(out, flatJ{t, rng})
		}
		return out
	case "give":
		c := *at(s.J)
		c.Overflowing = nil
		at(s.I).SetOverflowing([]tokenizer.Encoding{c})
		return []int{0}
	case "copy":
		c := *at(s.I)
		slots[s.J-1] = &c
		return []int{0}
	case "proc":
		if !procPre(at(s.I), 0) || !procPre(at(s.J), 1) {
			return []int{-1}
		}
		p := parse[procJ](s.P).build()
		var out *tokenizer.Encoding
		n := 0
		if p == nil {
			out = tokenizer.DefaultProcess(at(s.I), at(s.J), s.Add == 1)
		} else {
			n = p.AddedTokens(s.J != 0)
			out = p.Process(at(s.I), at(s.J), s.Add == 1)
		}
		slots[s.I-1] = out
		if s.J != 0 {
			slots[s.J-1] = tokenizer.DefaultEncoding()
		}
		return []int{0, n}
	case "look":
		return lookups(at(s.I), s.N)
	}
	check(fmt.Errorf("unknown encoding step %q", s.A))
	return nil
}

type encHist struct {
	Init  []encJ    `json:"init"`
	Steps []encStep `json:"steps"`
}

type stepObs struct {
	Slots []any `json:"slots"`
	Ret   any   `json:"ret"`
}

func init() {
	runners["enc"] = func(raw json.RawMessage) any {
		c := parse[encHist](raw)
		var slots []*tokenizer.Encoding
		for _, e := range c.Init {
			slots = append(slots, buildEnc(e))
		}
		obs := []any{}
		for _, s := range c.Steps {
			failed := func() (failed bool) {
				defer func() {
					if p := recover(); p != nil {
						obs = append(obs, M{"panic": firstLine(fmt.Sprint(p))})
						failed = true
					}
				}()
				ret := encApply(slots, s)
				so := stepObs{[]any{}, ret}
				for _, e := range slots {
					so.Slots = append(so.Slots, projEnc(e))
				}
				obs = append(obs, so)
				return false
			}()
			if failed {
				break
			}
		}
		return M{"obs": obs}
	}
	generators["enc"] = genEnc
}

// ---------------------------------------------------------------- generator

func genTokens(r *rand.Rand, n, base, ty int, words, specials bool) []tokJ {
	out := []tokJ{}
	pos, w := r.Intn(2), r.Intn(2)
	texts := []cps{{97}, {98, 99}, {233}, {288, 97}, {288, 288}, {288}, {97, 288}, {}, {8364, 120}}
	for i := 0; i < n; i++ {
		l := r.Intn(4)
		word := w
		if !words {
			word = missingWord
		}
		t := tokJ{base + i, ty, texts[r.Intn(len(texts))], pos, pos + l, word, 0, 1}
		if specials && words && r.Intn(6) == 0 {
			t.Sp, t.W, t.O1, t.O2 = 1, -1, 0, 0
		} else {
			pos += l + r.Intn(2)
			if r.Intn(2) == 0 {
				w += 1 + r.Intn(2)
			}
		}
		out = append(out, t)
	}
	return out
}

func genEncJ(r *rand.Rand, k int) encJ {
	words := r.Intn(8) != 0
	mk := func(max int) flatJ {
		n := r.Intn(max + 1)
		t := genTokens(r, n, 100*(k+1)+r.Intn(50), k, words, true)
		rng := [][]int{}
		if n > 0 && r.Intn(3) == 0 {
			rng = append(rng, []int{k, 0, n})
		} else if n > 0 && r.Intn(4) == 0 {
			a := r.Intn(n)
			b := a + 1 + r.Intn(n-a)
			rng = append(rng, []int{k, a, b})
			if b < n && r.Intn(3) == 0 {
				rng = append(rng, []int{k + 1, b, n})
			}
		}
		return flatJ{t, rng}
	}
	m := mk(far(9))
	e := encJ{m.T, []flatJ{}, m.Rng}
	for i := r.Intn(3); i > 0; i-- {
		f := mk(far(5))
		if len(f.T) == 0 {
			continue
		}
		e.Over = append(e.Over, f)
	}
	return e
}

func genProc(r *rand.Rand, depth int) M {
	sp := func(id int) spTokJ { return spTokJ{id, cps{91, 65 + r.Intn(20), 93}} }
	switch k := r.Intn(8); {
	case k <= 1:
		return M{"k": "bert", "cls": sp(9001), "sep": sp(9002)}
	case k <= 3:
		return M{"k": "roberta", "cls": sp(9001), "sep": sp(9002), "trim": r.Intn(2), "prefix": r.Intn(2)}
	case k == 4:
		return M{"k": "bytelevel", "trim": r.Intn(2), "prefix": r.Intn(2)}
	case k == 5 && depth == 0:
		// offset trimming, then a template
		bl := M{"k": "bytelevel", "trim": r.Intn(2), "prefix": r.Intn(2)}
		if r.Intn(2) == 0 {
			return M{"k": "sequ", "ps": []M{bl, genTpl(r)}}
		}
		if r.Intn(3) == 0 {
			return M{"k": "sequ", "ps": []M{genTpl(r), bl}}
		}
		ps := []M{}
		for i := 1 + r.Intn(3); i > 0; i-- {
			if r.Intn(2) == 0 {
				ps = append(ps, bl)
			} else {
				ps = append(ps, genProc(r, 1))
			}
		}
		return M{"k": "sequ", "ps": ps}
	case k == 6 && depth == 0:
		return M{"k": "none"}
	default:
		return genTpl(r)
	}
}

func genTpl(r *rand.Rand) M {
	piece := func() M {
		toks := []spTokJ{}
		for i := 1 + r.Intn(2); i > 0; i-- {
			id := 9010 + r.Intn(4)
			toks = append(toks, spTokJ{id, cps{91, 65 + id - 9010, 93}})
		}
		return M{"k": "sp", "ty": r.Intn(3), "toks": toks}
	}
	some := func() []M {
		out := []M{}
		for i := r.Intn(3); i > 0; i-- {
			out = append(out, piece())
		}
		return out
	}
	seq := func(s int) M { return M{"k": "seq", "s": s, "ty": r.Intn(3)} }
	single := append(append(some(), seq(0)), some()...)
	first, second := 0, 1
	if r.Intn(5) == 0 {
		first, second = 1, 0
	}
	pair := append(append(append(append(some(), seq(first)), some()...), seq(second)), some()...)
	return M{"k": "tpl", "single": single, "pair": pair}
}

func genEnc(r *rand.Rand, n int, emit func(any)) {
	for c := 0; c < n; c++ {
		ns := 2 + r.Intn(2)
		init := []encJ{}
		for k := 0; k < ns; k++ {
			init = append(init, genEncJ(r, k))
		}
		steps := []M{}
		pad := func() M {
			return M{"id": 7000 + r.Intn(2), "ty": r.Intn(3), "tk": cps{80, 65 + r.Intn(3)}, "left": r.Intn(2)}
		}
		two := func() (int, int) {
			i := 1 + r.Intn(ns)
			j := 1 + r.Intn(ns-1)
			if j >= i {
				j++
			}
			return i, j
		}
		merges := 0
		for k := 2 + r.Intn(5); k > 0; k-- {
			i, j := two()
			switch x := r.Intn(18); {
			case x >= 16:
				steps = append(steps, M{"a": pick(r, "clone", "clone", "fromtoks", "types", "seqids", "setword", "take", "give"), "i": i, "j": j, "ty": r.Intn(3), "n": r.Intn(4)})
			case x < 3:
				steps = append(steps, M{"a": "trunc", "i": i, "max": r.Intn(far(9)), "stride": r.Intn(far(5))})
			case x < 6:
				if r.Intn(3) == 0 {
					j = 0
				}
				steps = append(steps, M{"a": "trunc2", "i": i, "j": j, "max": 1 + r.Intn(far(14)), "stride": r.Intn(far(4)), "strat": r.Intn(3)})
			case x < 8:
				steps = append(steps, M{"a": "pad", "i": i, "target": r.Intn(far(14)), "p": pad()})
			case x < 9:
				steps = append(steps, M{"a": "padall", "target": r.Intn(far(14)) - 1, "p": pad()})
			case x < 12:
				// merging multiplies the overflow parts
				if merges >= 2 {
					continue
				}
				merges++
				if r.Intn(6) == 0 {
					steps = append(steps, M{"a": "mergeall", "grow": r.Intn(2), "n": r.Intn(2)})
					merges++
				} else {
					steps = append(steps, M{"a": "merge", "i": i, "j": j, "grow": r.Intn(2)})
				}
			case x < 13:
				steps = append(steps, M{"a": "copy", "i": i, "j": j})
			default:
				if merges >= 2 || r.Intn(2) == 0 {
					j = 0
				} else {
					merges++
				}
				steps = append(steps, M{"a": "proc", "i": i, "j": j, "add": r.Intn(2), "p": genProc(r, 0)})
			}
			if r.Intn(3) == 0 {
				steps = append(steps, M{"a": "look", "i": 1 + r.Intn(ns), "n": far(14)})
			}
		}
		steps = append(steps, M{"a": "look", "i": 1, "n": 20})
		emit(M{"op": "enc", "init": init, "steps": steps})
	}
}
