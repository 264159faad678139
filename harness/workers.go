package main

import (
	"encoding/json"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/normalizer"
)

// Calls on one tokenizer at the same time, whose workers enter the parts of
// the tokenizer in a given order (see spec/Workers.tla).

// worker tells by the letters of a text whose it is, from 1; 0: nobody's
func worker(text string) int {
	for _, c := range text {
		if c >= 'a' && c <= 'p' {
			return int(c-'a')/2 + 1
		}
	}
	return 0
}

// gates hold workers where they enter a part of the tokenizer
type gates struct {
	mu      sync.Mutex
	arrived *sync.Cond
	waiting map[int][]chan struct{}
	free    bool
}

func newGates() *gates {
	g := &gates{waiting: map[int][]chan struct{}{}, free: true}
	g.arrived = sync.NewCond(&g.mu)
	return g
}

func (g *gates) enter(text string) {
	w := worker(text)
	if g == nil || w == 0 {
		return
	}
	g.mu.Lock()
	if g.free {
		g.mu.Unlock()
		return
	}
	ch := make(chan struct{})
	g.waiting[w] = append(g.waiting[w], ch)
	g.arrived.Broadcast()
	g.mu.Unlock()
	<-ch
}

// code that runs its workers in another way is not held up for long
var late atomic.Int64

// await waits for a worker to arrive, for a while
func (g *gates) await(w int, limit time.Duration) bool {
	if late.Load() > 3 {
		limit = min(limit, 3*time.Millisecond)
	}
	over := false
	t := time.AfterFunc(limit, func() {
		g.mu.Lock()
		over = true
		g.arrived.Broadcast()
		g.mu.Unlock()
	})
	defer t.Stop()
	g.mu.Lock()
	defer g.mu.Unlock()
	for len(g.waiting[w]) == 0 && !over {
		g.arrived.Wait()
	}
	return len(g.waiting[w]) > 0
}

// direct lets the workers through in the order of sched, then lets everybody
// through. exact: sched has every gate of every worker
func (g *gates) direct(sched []int, exact bool) {
	defer g.release()
	limit := 2 * time.Millisecond
	if exact {
		limit = 300 * time.Millisecond
	}
	left := map[int]int{}
	for _, w := range sched {
		left[w]++
	}
	for _, w := range sched {
		if left[w] == 0 {
			continue
		}
		if !g.await(w, limit) {
			if exact {
				late.Add(1)
			}
			left[w] = 0
			continue
		}
		g.mu.Lock()
		ch := g.waiting[w][0]
		g.waiting[w] = g.waiting[w][1:]
		g.mu.Unlock()
		close(ch)
		left[w]--
		if left[w] > 0 {
			g.await(w, limit)
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
}

func (g *gates) release() {
	g.mu.Lock()
	defer g.mu.Unlock()
	g.free = true
	for w, chs := range g.waiting {
		for _, ch := range chs {
			close(ch)
		}
		delete(g.waiting, w)
	}
	g.arrived.Broadcast()
}

type gatedModel struct {
	tokenizer.Model
	g *gates
}

func (m gatedModel) Tokenize(s string) ([]tokenizer.Token, error) {
	m.g.enter(s)
	return m.Model.Tokenize(s)
}

func (m gatedModel) IdToToken(id int) (string, bool) {
	t, ok := m.Model.IdToToken(id)
	if ok {
		m.g.enter(t)
	}
	return t, ok
}

type gatedNorm struct {
	normalizer.Normalizer
	g *gates
}

func (n gatedNorm) Normalize(s *normalizer.NormalizedString) (*normalizer.NormalizedString, error) {
	n.g.enter(s.GetNormalized())
	return n.Normalizer.Normalize(s)
}

type gatedPre struct {
	tokenizer.PreTokenizer
	g *gates
}

func (p gatedPre) PreTokenize(s *tokenizer.PreTokenizedString) (*tokenizer.PreTokenizedString, error) {
	text := ""
	for _, t := range s.GetSplits(normalizer.OriginalTarget, tokenizer.Byte) {
		text += t.Value
	}
	p.g.enter(text)
	return p.PreTokenizer.PreTokenize(s)
}

type gatedPost struct {
	tokenizer.PostProcessor
	g *gates
}

func (p gatedPost) Process(a, b *tokenizer.Encoding, add bool) *tokenizer.Encoding {
	text := strings.Join(a.Tokens, "")
	if b != nil {
		text += strings.Join(b.Tokens, "")
	}
	p.g.enter(text)
	return p.PostProcessor.Process(a, b, add)
}

type gatedDec struct {
	tokenizer.Decoder
	g *gates
}

func (d gatedDec) Decode(tokens []string) string {
	d.g.enter(strings.Join(tokens, ""))
	return d.Decoder.Decode(tokens)
}

func runSched(raw json.RawMessage) any {
	c := parse[struct {
		C     pipeJ      `json:"c"`
		Steps []pipeStep `json:"steps"`
		Sched []int      `json:"sched"`
		Rough int        `json:"rough"`
	}](raw)
	alt := len(c.Sched) + len(c.Steps)
	p := newPipeline(c.C, alt)
	if len(c.Sched) > 0 {
		g := newGates()
		p.tk.WithModel(gatedModel{p.tk.GetModel(), g})
		if n := p.tk.GetNormalizer(); n != nil {
			p.tk.WithNormalizer(gatedNorm{n, g})
		}
		if x := p.tk.GetPreTokenizer(); x != nil {
			p.tk.WithPreTokenizer(gatedPre{x, g})
		}
		if x := p.tk.GetPostProcessor(); x != nil {
			p.tk.WithPostProcessor(gatedPost{x, g})
		}
		if x := p.tk.GetDecoder(); x != nil {
			p.tk.WithDecoder(gatedDec{x, g})
		}
		g.free = false
		done := make(chan struct{})
		defer func() { <-done }()
		go func() {
			defer close(done)
			g.direct(c.Sched, c.Rough == 0)
		}()
	}
	obs := make([]any, len(c.Steps))
	var wg sync.WaitGroup
	start := make(chan struct{})
	for i, s := range c.Steps {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			q := &pipeline{c: p.c, tk: p.tk}
			obs[i] = guarded(func() any { return q.do(s, alt+i) })
		}()
	}
	close(start)
	wg.Wait()
	return M{"obs": obs}
}

func init() {
	runners["sched"] = runSched
}

// newWorkersPipe is a tokenizer for texts of the letters of up to 8 workers
func newWorkersPipe(r *rand.Rand) *randPipe {
	x := &randPipe{r: r, t: cps{'a', ' ', 'b'}}
	letters := []int{}
	for c := 'a'; c <= 'p'; c++ {
		letters = append(letters, int(c))
	}
	norm, pres, decs := []M{}, []M{}, []M{}
	if r.Intn(2) == 0 {
		norm = append(norm, pick(r, M{"k": "lower"}, M{"k": "strip", "l": 1, "r": r.Intn(2)}, M{"k": "nf", "f": 2}))
	}
	if r.Intn(4) > 0 {
		pres = append(pres, pick(r, M{"k": "ws"}, M{"k": "wssplit"}, M{"k": "bl", "prefix": r.Intn(2), "trim": 1}))
	}
	if r.Intn(3) > 0 {
		decs = append(decs, pick(r, M{"k": "fuse"}, M{"k": "wordpiece", "s": cps{'#', '#'}, "cl": 1}))
	}
	kind := pick(r, "wp", "wl", "bpe", "uni", "gram")
	var m M
	switch kind {
	case "wp", "wl":
		m, _ = randWordModelOver(r, kind, letters)
	case "bpe":
		m, _ = randBpe(r, letters, r.Intn(10))
		m["cap"] = pick(r, 10000, 0, 2)
	case "uni":
		m, _ = randUnigramOver(r, letters, func() int { return 100 - r.Intn(4000) })
	case "gram":
		m = M{"vocab": []M{}, "w": 1 + r.Intn(3)}
	}
	m["k"] = kind
	x.ids = 24
	added := []M{}
	if r.Intn(2) == 0 {
		added = append(added, M{"toks": []M{{"c": cps{'[', 'S', ']'}, "nz": r.Intn(2), "sw": 0, "ls": r.Intn(2), "rs": r.Intn(2)}}, "special": r.Intn(2)})
	}
	x.c = M{"m": m, "added": added, "norm": norm, "pre": pres, "post": []M{}, "trunc": []M{}, "pad": []M{}, "dec": decs}
	if r.Intn(3) > 0 {
		x.c["post"] = x.randPost()
	}
	if r.Intn(3) == 0 {
		x.c["trunc"] = x.randTrunc()
	}
	if r.Intn(2) == 0 {
		x.c["pad"] = x.randPad()
	}
	return x
}

func (x *randPipe) textOf(w int) cps {
	t := cps{}
	for i := x.r.Intn(12); i > 0; i-- {
		switch x.r.Intn(8) {
		case 0:
			t = append(t, ' ')
		case 1:
			t = append(t, '[', 'S', ']')
		default:
			t = append(t, 'a'+2*(w-1)+x.r.Intn(2))
		}
	}
	return t
}

func (x *randPipe) inputOf(w int) []M {
	in := []M{}
	for i := pick(x.r, 1, 1, 2); i > 0; i-- {
		if x.r.Intn(4) > 0 {
			in = append(in, M{"k": "raw", "s": x.textOf(w)})
		} else {
			in = append(in, M{"k": "words", "s": []cps{x.textOf(w), x.textOf(w)}})
		}
	}
	return in
}

// call is a call for n workers from w on
func (x *randPipe) callOf(w, n int, batch bool) M {
	r := x.r
	rows := [][]int{}
	ins := [][]M{}
	for i := 0; i < n; i++ {
		rows = append(rows, x.someIds())
		ins = append(ins, x.inputOf(w+i))
	}
	if batch {
		if r.Intn(3) == 0 {
			return M{"a": "decbatch", "idss": rows, "skip": r.Intn(2)}
		}
		return M{"a": "batch", "ins": ins, "add": r.Intn(2)}
	}
	switch r.Intn(6) {
	case 0:
		return M{"a": "dec", "ids": rows[0], "skip": r.Intn(2)}
	case 1:
		return M{"a": "list"}
	case 2:
		return M{"a": "look", "toks": []cps{x.textOf(w), {'['}}, "ids": rows[0]}
	case 3:
		return M{"a": "tok", "in": []M{{"k": "raw", "s": x.textOf(w)}}, "add": r.Intn(2)}
	}
	return M{"a": "enc", "in": ins[0], "add": r.Intn(2), "chars": r.Intn(2)}
}

func init() {
	gen := func(batch bool) generator {
		return func(r *rand.Rand, n int, emit func(any)) {
			for i := 0; i < n; i++ {
				if stretch > 1 && batch && r.Intn(2) == 0 { // batches of many, as they come
					x := newRandPipe(r, 1)
					ins, rows := [][]M{}, [][]int{}
					for k := 10 + r.Intn(60); k > 0; k-- {
						ins = append(ins, pick(r, x.input(), []M{{"k": "raw", "s": cps{}}}))
						rows = append(rows, pick(r, x.someIds(), []int{r.Intn(x.ids)}))
					}
					emit(M{"op": "pipe", "c": x.c, "steps": []M{{"a": "batch", "ins": ins, "add": r.Intn(2)}, {"a": "decbatch", "idss": rows, "skip": r.Intn(2)}}})
					continue
				}
				x := newWorkersPipe(r)
				calls := []M{}
				w := 1
				for j := pick(r, 1, 1, 2); !batch && w <= 8 || j > 0; j-- {
					k := 1
					if batch {
						k = pick(r, r.Intn(4), 2+r.Intn(3), 8/pick(r, 1, 2))
						k = min(k, 9-w)
					}
					calls = append(calls, x.callOf(w, k, batch || r.Intn(8) == 0))
					w += k
				}
				sched := []int{}
				if r.Intn(2) == 0 { // in an order: each worker a few times
					for j := 1; j < w; j++ {
						for k := 1 + r.Intn(4); k > 0; k-- {
							sched = append(sched, j)
						}
					}
					r.Shuffle(len(sched), func(a, b int) { sched[a], sched[b] = sched[b], sched[a] })
				}
				emit(M{"op": "sched", "c": x.c, "steps": calls, "sched": sched, "rough": 1})
			}
		}
	}
	generators["T03"] = gen(true)
	generators["T04conc"] = gen(false)
}
