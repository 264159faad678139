package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"strings"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/processor"
)

// Templates written as text and their builder (see spec/Template.tla).

type written struct {
	One  *cps  `json:"one"`
	Many []cps `json:"many"`
}

func (w written) value() any {
	if w.One != nil {
		return w.One.str()
	}
	out := []string{}
	for _, x := range w.Many {
		out = append(out, x.str())
	}
	return out
}

type tplStep struct {
	A    string   `json:"a"`
	S    cps      `json:"s"`
	W    written  `json:"w"`
	Toks []spTokJ `json:"toks"`
	N    int      `json:"n"`
	Two  int      `json:"two"`
	Add  int      `json:"add"`
}

func badPiece() M { return M{"k": "bad", "s": 0, "ty": 0, "id": cps{}} }

func projPiece(p processor.Piece) M {
	switch q := p.(type) {
	case *processor.SequencePiece:
		return M{"k": "seq", "s": int(q.Id), "ty": q.TypeId, "id": cps{}}
	case *processor.SpecialTokenPiece:
		return M{"k": "sp", "s": 0, "ty": q.TypeId, "id": toCps(q.Id)}
	}
	return badPiece()
}

func projTemplate(t processor.Template, err error) any {
	if err != nil {
		return []any{badPiece()}
	}
	out := []any{}
	for _, p := range t {
		out = append(out, projPiece(p))
	}
	return out
}

func projSpecial(t processor.SpecialToken, ok bool) any {
	if !ok {
		return []any{}
	}
	if len(t.Ids) != 1 || len(t.Tokens) != 1 || t.Id != t.Tokens[0] {
		return M{"bad": fmt.Sprint(t)}
	}
	return []any{M{"id": t.Ids[0], "tk": toCps(t.Id)}}
}

func tplInputs() []*tokenizer.Encoding {
	return []*tokenizer.Encoding{
		buildEnc(encJ{T: []tokJ{{12, 0, cps{'h'}, 0, 1, 0, 0, 1}, {14, 0, cps{'t'}, 2, 3, 1, 0, 1}}}),
		buildEnc(encJ{T: []tokJ{{15, 0, cps{'p'}, 0, 4, 0, 0, 1}}}),
	}
}

// refused tells whether f gave up.
func refused(f func()) (out []int) {
	defer func() {
		if recover() != nil {
			out = []int{1}
		}
	}()
	f()
	return []int{0}
}

func tplDo(b *processor.TemplateProcessingBuilder, s tplStep, alt int) any {
	switch s.A {
	case "piece":
		p, err := processor.NewPiece(s.S.str())
		if err != nil {
			return badPiece()
		}
		return projPiece(p)
	case "template":
		if v, ok := s.W.value().(string); ok && alt%2 == 0 {
			return projTemplate(processor.NewTemplateFromOne(v))
		} else if l, ok := s.W.value().([]string); ok && alt%2 == 0 {
			return projTemplate(processor.NewTemplateFromMulti(l))
		}
		return projTemplate(processor.NewTemplate(s.W.value()))
	case "single":
		return refused(func() { b.NewSingle(s.W.value()) })
	case "pair":
		return refused(func() { b.NewPair(s.W.value()) })
	case "tokens":
		var toks []tokenizer.Token
		for _, t := range s.Toks {
			toks = append(toks, tokenizer.NewToken(t.Id, t.Tk.str(), nil))
		}
		b.NewSpecialTokens(toks)
		return []int{0}
	case "added":
		if b.DefaultAdded(true) != b.AddedTokens(false) || b.DefaultAdded(false) != b.AddedTokens(true) {
			return M{"bad": "announced and counted tokens differ"}
		}
		return []int{b.AddedTokens(false), b.AddedTokens(true)}
	case "validate":
		return []int{b2i(b.Validate() != nil)}
	case "find":
		named := projSpecial(b.SpecialTokens.GetItemByKey(s.S.str()))
		return M{"named": named, "nth": projSpecial(b.SpecialTokens.GetItemByOrder(s.N))}
	case "process":
		p := b.Build()
		if alt%2 == 1 { // the same put together in another way
			p = processor.NewTemplateProcessingFrom(&processor.TemplateProcessingDeserializer{Single: p.Single, Pair: p.Pair, SpecialTokens: p.SpecialTokens})
		}
		in := tplInputs()
		tpl := p.Single
		if s.Two == 0 {
			in[1] = nil
		} else {
			tpl = p.Pair
		}
		seen := map[processor.SequenceEnum]bool{}
		for _, x := range tpl {
			switch q := x.(type) {
			case *processor.SequencePiece:
				if seen[q.Id] || q.Id == processor.B && s.Two == 0 {
					return []any{}
				}
				seen[q.Id] = true
			case *processor.SpecialTokenPiece:
				if _, ok := p.SpecialTokens.GetItemByKey(q.Id); !ok {
					return []any{}
				}
			}
		}
		return []any{projEnc(p.Process(in[0], in[1], s.Add == 1))}
	}
	check(fmt.Errorf("unknown template step %q", s.A))
	return nil
}

func init() {
	runners["template"] = func(raw json.RawMessage) any {
		c := parse[struct {
			Steps []tplStep `json:"steps"`
		}](raw)
		b := processor.DefaultTemplateProcessing().Builder()
		obs := []any{}
		for i, s := range c.Steps {
			o := guarded(func() any { return tplDo(b, s, len(raw)+i) })
			if o["panic"] != nil {
				obs = append(obs, o)
				break
			}
			obs = append(obs, o["ret"])
		}
		return M{"obs": obs}
	}
	generators["template"] = genTemplates
}

func genTemplates(r *rand.Rand, n int, emit func(any)) {
	for i := 0; i < n; i++ {
		names := []string{"[CLS]", "[SEP]", "<s>", "é", "", "a$", "B"}[:2+r.Intn(6)]
		toks := []spTokJ{}
		for _, x := range names {
			if r.Intn(8) > 0 {
				toks = append(toks, spTokJ{len(toks) + 1, toCps(x)})
			}
		}
		piece := func(pair bool) string {
			s := pick(r, names...)
			switch r.Intn(9) {
			case 0, 1:
				s = "$" + pick(r, "", "A", "a", "0", "1", "12")
			case 2, 3:
				s = "$" + pick(r, "B", "b")
				if !pair && r.Intn(6) > 0 {
					s = "$A"
				}
			}
			if r.Intn(3) == 0 {
				s += ":" + pick(r, "0", "1", "2", "10")
			}
			if r.Intn(25) == 0 {
				s = pick(r, "$C", "$AB", s+":", s+":1:1", s+":x", ":1", "$$", s+"$")
			}
			return s
		}
		template := func(pair bool) M {
			parts := []string{}
			for j := r.Intn(5); j > 0; j-- {
				parts = append(parts, piece(pair))
			}
			if r.Intn(3) > 0 { // a usual one
				parts = []string{pick(r, names...), "$A"}
				if pair {
					parts = append(parts, pick(r, names...)+":1", "$B:1")
				}
				for j := r.Intn(3); j > 0; j-- {
					parts = append(parts, pick(r, names...))
				}
			}
			if r.Intn(2) == 0 {
				return M{"one": toCps(strings.Join(parts, " "))}
			}
			l := []cps{}
			for _, p := range parts {
				l = append(l, toCps(p))
			}
			return M{"many": l}
		}
		steps := []M{}
		for j := 2 + r.Intn(8); j > 0; j-- {
			switch r.Intn(10) {
			case 0:
				steps = append(steps, M{"a": "piece", "s": toCps(piece(true))})
			case 1:
				steps = append(steps, M{"a": "template", "w": template(true)})
			case 2, 3:
				steps = append(steps, M{"a": "single", "w": template(false)})
			case 4, 5:
				steps = append(steps, M{"a": "pair", "w": template(true)})
			case 6, 7:
				steps = append(steps, M{"a": "tokens", "toks": toks})
			default:
				steps = append(steps, M{"a": "validate"}, M{"a": "added"}, M{"a": "process", "two": r.Intn(2), "add": r.Intn(3) & 1})
			}
		}
		steps = append(steps, M{"a": "validate"}, M{"a": "added"}, M{"a": "find", "s": toCps(pick(r, names...)), "n": r.Intn(8) - 1},
			M{"a": "process", "two": 0, "add": 1}, M{"a": "process", "two": 1, "add": 1})
		emit(M{"op": "template", "steps": steps})
	}
}
