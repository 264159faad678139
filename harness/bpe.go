package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/sugarme/tokenizer"
	"github.com/sugarme/tokenizer/model/bpe"
)

type bpeModel struct {
	Vocab  []cps    `json:"vocab"`
	Merges [][4]int `json:"merges"`
	Unk    []cps    `json:"unk"`
	Pre    cps      `json:"pre"`
	Suf    cps      `json:"suf"`
	Drop   int      `json:"drop"`
	Cap    int      `json:"cap"`
}

// ordered says whether the merges can be written down as lines in order.
func (m *bpeModel) ordered() bool {
	seen := map[int]bool{}
	for _, x := range m.Merges {
		if seen[x[3]] || strings.ContainsAny(m.Vocab[x[0]].str()+m.Vocab[x[1]].str(), " \r\n") || len(m.Vocab[x[0]]) == 0 || len(m.Vocab[x[1]]) == 0 {
			return false
		}
		seen[x[3]] = true
	}
	return true
}

func (m *bpeModel) lines() []string {
	ms := append([][4]int{}, m.Merges...)
	sort.Slice(ms, func(i, j int) bool { return ms[i][3] < ms[j][3] })
	var out []string
	for _, x := range ms {
		out = append(out, m.Vocab[x[0]].str()+" "+m.Vocab[x[1]].str())
	}
	return out
}

// make builds the model, in one of the ways the library offers.
func (m *bpeModel) make(alt int) *bpe.BPE {
	vocab := map[string]int{}
	for i, t := range m.Vocab {
		vocab[t.str()] = i
	}
	merges := bpe.Merges{}
	for _, x := range m.Merges {
		merges[bpe.Pair{C1: x[0], C2: x[1]}] = bpe.PairVal{Rank: x[3], NewId: x[2]}
	}
	opt := func(c cps) *string {
		if len(c) == 0 && alt%2 == 0 {
			return nil
		}
		s := c.str()
		return &s
	}
	var unk *string
	if len(m.Unk) > 0 {
		s := m.Unk[0].str()
		unk = &s
	}
	var drop *float32
	if m.Drop > 0 {
		d := []float32{0.1, 0.5, 0.9}[alt%3]
		if m.Drop == 2 {
			d = 1
		}
		drop = &d
	}
	switch alt = alt % 5; {
	case alt == 0 && m.Cap == bpe.DefaultCacheCapacity:
		b := bpe.NewBPE(vocab, merges)
		b.UnkToken, b.Dropout, b.ContinuingSubwordPrefix, b.EndOfWordSuffix = unk, drop, opt(m.Pre), opt(m.Suf)
		return b
	case alt == 1 && m.Cap == bpe.DefaultCacheCapacity && m.ordered():
		b, err := bpe.New(vocab, m.lines(), drop, unk, opt(m.Pre), opt(m.Suf))
		check(err)
		return b
	}
	bb := bpe.NewBpeBuilder()
	if alt == 2 && m.ordered() && validTexts(m.Vocab) {
		dir, err := os.MkdirTemp("", "bpe")
		check(err)
		defer os.RemoveAll(dir)
		v, mf := filepath.Join(dir, "v"), filepath.Join(dir, "m")
		check(os.WriteFile(v, mustJSON(vocab), 0o644))
		check(os.WriteFile(mf, []byte(strings.Join(append([]string{"#version: 0.2"}, m.lines()...), "\n")), 0o644))
		bb.Files(v, mf)
	} else {
		bb.VocabAndMerges(vocab, merges)
	}
	if m.Cap != bpe.DefaultCacheCapacity || alt == 3 {
		bb.CacheCapacity(m.Cap)
	}
	if drop != nil {
		bb.Dropout(*drop)
	}
	if unk != nil {
		bb.UnkToken(*unk)
	}
	if p := opt(m.Pre); p != nil {
		bb.ContinuingSubwordPrefix(*p)
	}
	if p := opt(m.Suf); p != nil {
		bb.EndOfWordSuffix(*p)
	}
	b, err := bb.Build()
	check(err)
	return b
}

func validTexts(ts []cps) bool {
	for _, t := range ts {
		for _, c := range t {
			if c < 0 {
				return false
			}
		}
	}
	return true
}

func mustJSON(v any) []byte {
	b, err := json.Marshal(v)
	check(err)
	return b
}

type bpeStep struct {
	A   string `json:"a"`
	W   cps    `json:"w"`
	Ts  []cps  `json:"ts"`
	Ids []int  `json:"ids"`
}

func viewModelTokens(ts []tokenizer.Token, err error) M {
	toks := []M{}
	for _, t := range ts {
		toks = append(toks, M{"id": t.Id, "v": toCps(t.Value), "o": t.Offsets})
	}
	return M{"err": b2i(err != nil), "toks": toks}
}

// lookups of a model
func viewLook(m tokenizer.Model, ts []cps, ids []int) M {
	is, os := []int{}, [][]cps{}
	for _, t := range ts {
		if id, ok := m.TokenToId(t.str()); ok {
			is = append(is, id)
		} else {
			is = append(is, -1)
		}
	}
	for _, id := range ids {
		if t, ok := m.IdToToken(id); ok {
			os = append(os, []cps{toCps(t)})
		} else {
			os = append(os, []cps{})
		}
	}
	vocab := m.GetVocab()
	all := make([]cps, len(vocab))
	for t, id := range vocab {
		if id < 0 || id >= len(all) || all[id] != nil {
			panic(fmt.Sprintf("id %d of %q", id, t))
		}
		all[id] = toCps(t)
	}
	return M{"ids": is, "ts": os, "n": m.GetVocabSize(), "all": all}
}

func guarded(f func() any) (o M) {
	defer func() {
		if p := recover(); p != nil {
			o = M{"panic": firstLine(fmt.Sprint(p))}
		}
	}()
	return M{"ret": f()}
}

func runBpe(raw json.RawMessage) any {
	c := parse[struct {
		Model bpeModel  `json:"model"`
		Steps []bpeStep `json:"steps"`
	}](raw)
	b := c.Model.make(len(c.Steps) + 3*len(c.Model.Merges) + len(c.Model.Vocab))
	obs := []any{}
	for i, s := range c.Steps {
		o := guarded(func() any { return bpeDo(b, s, i) })
		obs = append(obs, o)
		if o["panic"] != nil {
			break
		}
	}
	return M{"obs": obs}
}

func bpeDo(b *bpe.BPE, s bpeStep, alt int) any {
	switch s.A {
	case "tok":
		v := viewModelTokens(b.Tokenize(s.W.str()))
		if alt%3 == 0 && v["err"] == 0 && len(s.W) > 0 { // word by word
			w := b.MergeWord(s.W.str())
			return viewModelTokens(b.WordToTokens(*w), nil)
		}
		if alt%3 == 1 && b.Dropout == nil && v["err"] == 0 && len(s.W) > 0 {
			return viewModelTokens(b.TokenizeWithCache(s.W.str()), nil)
		}
		return v
	case "look":
		return viewLook(b, s.Ts, s.Ids)
	case "clear":
		b.ClearCache()
		return 0
	case "size":
		if b.Cache == nil {
			return 0
		}
		return b.Cache.GetSize()
	}
	check(fmt.Errorf("bpe step %q", s.A))
	return nil
}

type cacheOp struct {
	A     string   `json:"a"`
	K     int      `json:"k"`
	Ks    []int    `json:"ks"`
	Items [][2]int `json:"items"`
	N     int      `json:"n"`
	V     int      `json:"v"`
}

func cacheKey(k int) string { return fmt.Sprint("k", k) }

func cacheWord(v int) bpe.Word { return bpe.Word{Symbols: []bpe.Symbol{{C: v, Len: 1}}} }

func cacheVal(w bpe.Word) []int {
	out := []int{}
	for _, s := range w.Symbols {
		out = append(out, s.C)
	}
	return out
}

func cacheDo(c *bpe.Cache, s cacheOp) any {
	switch s.A {
	case "get":
		w, ok := c.Get(cacheKey(s.K))
		if ok != (len(w.Symbols) > 0) {
			panic("found without a value, or a value not found")
		}
		return cacheVal(w)
	case "gets":
		ks := []string{}
		for _, k := range s.Ks {
			ks = append(ks, cacheKey(k))
		}
		out := [][]int{}
		for _, w := range c.GetValues(ks) {
			out = append(out, cacheVal(w))
		}
		return out
	case "set":
		items := []bpe.CacheItem{}
		for _, x := range s.Items {
			items = append(items, bpe.CacheItem{Key: cacheKey(x[0]), Value: cacheWord(x[1])})
		}
		c.SetValues(items)
		return 0
	case "many":
		items := []bpe.CacheItem{}
		for i := 0; i < s.N; i++ {
			items = append(items, bpe.CacheItem{Key: cacheKey(s.K + i), Value: cacheWord(s.V)})
		}
		c.SetValues(items)
		return 0
	case "clear":
		c.Clear()
		return 0
	case "size":
		return c.GetSize()
	case "full":
		return b2i(c.IsFull())
	}
	check(fmt.Errorf("cache op %q", s.A))
	return nil
}

func runCache(raw json.RawMessage) any {
	c := parse[struct {
		Model bpeModel  `json:"model"`
		Steps []cacheOp `json:"steps"`
	}](raw)
	cache := bpe.NewCache(c.Model.Cap)
	obs := []any{}
	for _, s := range c.Steps {
		obs = append(obs, guarded(func() any { return cacheDo(cache, s) }))
	}
	return M{"obs": obs}
}

// concurrent runs the operations of several threads at once, a number of times,
// and keeps the runs in which most of them overlapped. Every operation has the
// places of its begin and its end in a common order.
func concurrent(threads []int, rounds, keep int, setup func() func(th, i int) any) []any {
	type event struct {
		From int64 `json:"from"`
		To   int64 `json:"to"`
		Ret  any   `json:"ret"`
	}
	type round struct {
		evs     [][]event
		overlap int
	}
	var all []round
	for n := 0; n < rounds; n++ {
		do := setup()
		var clock atomic.Int64
		var ready, wg sync.WaitGroup
		start := make(chan struct{})
		evs := make([][]event, len(threads))
		ready.Add(len(threads))
		wg.Add(len(threads))
		for th, k := range threads {
			th, k := th, k
			evs[th] = make([]event, k)
			go func() {
				defer wg.Done()
				ready.Done()
				<-start
				for i := 0; i < k; i++ {
					e := &evs[th][i]
					e.From = clock.Add(1)
					o := guarded(func() any { return do(th, i) })
					e.To = clock.Add(1)
					e.Ret = o
					if (n+th+i)%3 == 0 {
						runtime.Gosched()
					}
				}
			}()
		}
		ready.Wait()
		close(start)
		wg.Wait()
		overlap := 0
		for a := range evs {
			for b := 0; b < a; b++ {
				for _, x := range evs[a] {
					for _, y := range evs[b] {
						if x.From < y.To && y.From < x.To {
							overlap++
						}
					}
				}
			}
		}
		all = append(all, round{evs, overlap})
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].overlap > all[j].overlap })
	out := []any{}
	for _, r := range all[:min(keep, len(all))] {
		out = append(out, r.evs)
	}
	return out
}

func runCacheConc(raw json.RawMessage) any {
	c := parse[struct {
		Cap     int         `json:"cap"`
		Threads [][]cacheOp `json:"threads"`
	}](raw)
	lens := []int{}
	for _, t := range c.Threads {
		lens = append(lens, len(t))
	}
	return M{"rounds": concurrent(lens, 60, 3, func() func(int, int) any {
		cache := bpe.NewCache(c.Cap)
		left := int64(0)
		for _, n := range lens {
			left += int64(n)
		}
		return func(th, i int) any {
			if i == lens[th]-1 && th == 0 { // the last operation of thread 0 waits for the others
				for atomic.LoadInt64(&left) > 1 {
					runtime.Gosched()
				}
			}
			r := cacheDo(cache, c.Threads[th][i])
			atomic.AddInt64(&left, -1)
			return r
		}
	})}
}

func runBpeConc(raw json.RawMessage) any {
	c := parse[struct {
		Model   bpeModel    `json:"model"`
		Threads [][]bpeStep `json:"threads"`
	}](raw)
	lens := []int{}
	for _, t := range c.Threads {
		lens = append(lens, len(t))
	}
	return M{"rounds": concurrent(lens, 20, 2, func() func(int, int) any {
		b := c.Model.make(3)
		return func(th, i int) any { return bpeDo(b, c.Threads[th][i], 2) }
	})}
}

// randBpe makes a model whose merges make sense, over the letters given.
func randBpe(r *rand.Rand, letters []int, nMerges int) (M, []cps) {
	var pre, suf cps = cps{}, cps{}
	if r.Intn(4) == 0 {
		pre = pick(r, cps{'#', '#'}, cps{'@'}, cps{letters[0]})
	}
	if r.Intn(4) == 0 {
		suf = pick(r, cps{'<', '/', 'w', '>'}, cps{'_'}, cps{letters[0]})
	}
	vocab := []cps{}
	ids := map[string]int{}
	add := func(t cps) int {
		if id, ok := ids[t.str()]; ok {
			return id
		}
		ids[t.str()] = len(vocab)
		vocab = append(vocab, t)
		return len(vocab) - 1
	}
	unk := []cps{}
	switch r.Intn(5) {
	case 0:
	case 1:
		unk = append(unk, cps{'?'})
	default:
		unk = append(unk, pick(r, cps{'<', 'u', '>'}, cps{letters[0]}))
		if r.Intn(3) > 0 {
			add(unk[0])
		}
	}
	join := func(cs ...cps) cps {
		out := cps{}
		for _, c := range cs {
			out = append(out, c...)
		}
		return out
	}
	for _, l := range letters {
		if l < 0 {
			l = 0xfffd
		}
		if r.Intn(12) > 0 {
			add(cps{l})
		}
		if len(pre) > 0 && r.Intn(12) > 0 {
			add(join(pre, cps{l}))
		}
		if len(suf) > 0 && r.Intn(12) > 0 {
			add(join(cps{l}, suf))
			add(join(pre, cps{l}, suf))
		}
	}
	merges := [][4]int{}
	used := map[[2]int]bool{}
	for i := 0; i < nMerges && len(vocab) > 0; i++ {
		a, b := r.Intn(len(vocab)), r.Intn(len(vocab))
		if r.Intn(2) == 0 {
			a = len(vocab) - 1 - r.Intn(min(3, len(vocab)))
		}
		if used[[2]int{a, b}] {
			continue
		}
		used[[2]int{a, b}] = true
		right := vocab[b]
		if len(pre) > 0 && strings.HasPrefix(right.str(), pre.str()) {
			right = right[len(pre):]
		}
		rank := i
		switch r.Intn(6) {
		case 0:
			rank = r.Intn(i + 1)
		case 1:
			rank = nMerges + r.Intn(4)
		}
		merges = append(merges, [4]int{a, b, add(join(vocab[a], right)), rank})
	}
	r.Shuffle(len(merges), func(i, j int) { merges[i], merges[j] = merges[j], merges[i] })
	return M{"vocab": vocab, "merges": merges, "unk": unk, "pre": pre, "suf": suf, "drop": 0, "cap": bpe.DefaultCacheCapacity}, vocab
}

func randWord(r *rand.Rand, letters []int, vocab []cps, n int) cps {
	w := cps{}
	for len(w) < n {
		if len(vocab) > 0 && r.Intn(3) == 0 {
			w = append(w, pick(r, vocab...)...)
		} else {
			w = append(w, pick(r, letters...))
		}
		if r.Intn(5) == 0 {
			break
		}
	}
	return w[:min(n, len(w))]
}

func init() {
	runners["bpe"] = runBpe
	runners["cache"] = runCache
	runners["cacheconc"] = runCacheConc
	runners["bpeconc"] = runBpeConc
	generators["B01"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			letters := []int{'a', 'b', 'c', 'd', 0xe9, 0x20ac, 0x1f600, -0xff, 0xfffd}[r.Intn(4):]
			r.Shuffle(len(letters), func(i, j int) { letters[i], letters[j] = letters[j], letters[i] })
			letters = letters[:2+r.Intn(min(4, len(letters)-2))]
			m, vocab := randBpe(r, letters, r.Intn(far(12)))
			m["drop"] = pick(r, 0, 0, 0, 0, 1, 2)
			if r.Intn(3) == 0 {
				m["cap"] = r.Intn(3)
			}
			maxLen := far(14)
			if m["drop"] == 1 {
				maxLen = 7
			}
			steps := []M{}
			for j := 0; j < 6; j++ {
				steps = append(steps, M{"a": "tok", "w": randWord(r, letters, vocab, 1+r.Intn(maxLen))})
			}
			ids := []int{}
			for j := -1; j <= len(vocab); j++ {
				ids = append(ids, j)
			}
			steps = append(steps, steps[r.Intn(6)], M{"a": "tok", "w": cps{}}, M{"a": "look", "ts": append([]cps{{}, {'q'}}, vocab...), "ids": ids})
			emit(M{"op": "bpe", "model": m, "steps": steps})
		}
	}
	generators["B02"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			letters := []int{'a', 'b', 0xe9}
			m, vocab := randBpe(r, letters, r.Intn(6))
			m["cap"] = r.Intn(far(6))
			if r.Intn(6) == 0 {
				m["drop"] = 2
			}
			words := []cps{}
			for j := 0; j < far(5); j++ {
				words = append(words, randWord(r, letters, vocab, 5))
			}
			if r.Intn(10) == 0 { // long words which differ at one end only
				long := cps{}
				for len(long) < 40 {
					long = append(long, randWord(r, letters, vocab, 9)...)
				}
				x := pick(r, letters...)
				words = []cps{append(append(cps{}, long...), 'a'), append(append(cps{}, long...), 'b'), append(append(cps{}, long...), 'a', x), append(cps{x}, long...), long}
			}
			steps := []M{}
			for j := 0; j < far(12); j++ {
				switch r.Intn(far(8)) {
				case 0:
					steps = append(steps, M{"a": "clear"})
				case 1:
					steps = append(steps, M{"a": "size"})
				default:
					steps = append(steps, M{"a": "tok", "w": pick(r, words...)})
				}
			}
			emit(M{"op": "bpe", "model": m, "steps": steps})
		}
	}
	// concurrent histories
	generators["B02conc"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			if i%4 == 3 {
				letters := []int{'a', 'b', 0xe9}
				m, vocab := randBpe(r, letters, 2+r.Intn(6))
				m["cap"] = r.Intn(4)
				words := []cps{}
				for j := 0; j < 4; j++ {
					words = append(words, randWord(r, letters, vocab, 6))
				}
				threads := [][]M{}
				for t := 0; t < 3; t++ {
					ops := []M{}
					for j := 0; j < 4; j++ {
						ops = append(ops, pick(r, M{"a": "tok", "w": pick(r, words...)}, M{"a": "tok", "w": pick(r, words...)}, M{"a": "tok", "w": pick(r, words...)}, M{"a": "clear"}))
					}
					threads = append(threads, ops)
				}
				emit(M{"op": "bpeconc", "model": m, "threads": threads})
				continue
			}
			wide := i%4 == 2
			cap := r.Intn(4)
			if wide {
				cap = 30 + r.Intn(100)
			}
			threads := [][]M{}
			for t := 0; t < 3; t++ {
				ops := []M{}
				for j := 0; j < 2+r.Intn(2); j++ {
					if wide && r.Intn(4) > 0 {
						ops = append(ops, M{"a": "many", "k": 100 * (t*3 + j), "n": 20 + r.Intn(60), "v": 1 + t})
						continue
					}
					k := 1 + r.Intn(3)
					switch r.Intn(7) {
					case 0:
						ops = append(ops, M{"a": "get", "k": k})
					case 1:
						ops = append(ops, M{"a": "gets", "ks": []int{1, 2, 3}})
					case 2, 3:
						items := [][2]int{}
						for len(items) < 1+r.Intn(3) {
							items = append(items, [2]int{1 + r.Intn(3), 1 + t})
						}
						ops = append(ops, M{"a": "set", "items": items})
					case 4:
						ops = append(ops, M{"a": "clear"})
					case 5:
						ops = append(ops, M{"a": "size"})
					case 6:
						ops = append(ops, M{"a": "full"})
					}
				}
				threads = append(threads, ops)
			}
			threads[0] = append(threads[0], pick(r, M{"a": "size"}, M{"a": "gets", "ks": []int{1, 2, 3}}, M{"a": "full"}))
			emit(M{"op": "cacheconc", "cap": cap, "threads": threads})
		}
	}
}
