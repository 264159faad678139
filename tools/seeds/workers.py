exec(open(__file__.rsplit('/', 1)[0] + '/pipeline.py').read().split('SEEDS = [')[0])
G = H.replace('"testing"\n', '"testing"\n\t"time"\n', 1) + '''
// zzGate holds the model back at texts that start with "slow" until others are done
type zzGate struct {
	zzModel
	ready chan bool
}

func (m zzGate) Tokenize(s string) ([]tokenizer.Token, error) {
	if s == "slow" {
		<-m.ready
	}
	return m.zzModel.Tokenize(s)
}
'''
SEEDS = [
 dict(id='T03-error-of-last', property='T03', pkg='.',
  edits=[('tokenizer.go', '''	if err := eg.Wait(); err != nil {
		return nil, err
	}

	// Do padding''', '''	eg.Wait()
	if failed != nil {
		return nil, failed
	}

	// Do padding'''), ('tokenizer.go', '''			e, err := t.Encode(inputs[i], addSpecialTokens)
			if err != nil {
				return err
			}
			mu.Lock()
			encodings[i] = *e
			mu.Unlock()''', '''			e, err := t.Encode(inputs[i], addSpecialTokens)
			mu.Lock()
			defer mu.Unlock()
			failed = err
			if err != nil {
				return err
			}
			encodings[i] = *e'''), ('tokenizer.go', '''		mu        = &sync.Mutex{}
	)

	// Encoding''', '''		mu        = &sync.Mutex{}
		failed    error
	)

	// Encoding''')],
  demo=G + '''
func TestZZDemo(t *testing.T) {
	m := zzGate{ready: make(chan bool)}
	tk := tokenizer.NewTokenizer(m)
	go func() { time.Sleep(200 * time.Millisecond); close(m.ready) }()
	es, err := tk.EncodeBatch([]tokenizer.EncodeInput{zzText("slow"), zzText("a!")}, false)
	if err == nil {
		t.Fatalf("no error: %v", es)
	}
}
''', needs='A text that cannot be encoded, and a worker that ends after it', breaks='The error is lost and the encoding of that text is empty'),
 dict(id='T03-kept-encoding', property='T03', pkg='.',
  edits=[('tokenizer.go', '''		encodings []Encoding = make([]Encoding, len(inputs))''', '''		encodings []Encoding = make([]Encoding, 0, len(inputs))
		order     []int'''), ('tokenizer.go', '''			encodings[i] = *e
			mu.Unlock()''', '''			// keep the encodings in the order of the inputs
			at := sort.Search(len(order), func(j int) bool { return order[j] > i })
			if at > 0 && at < len(order) && order[at]-order[at-1] == 2 {
				at = len(order) - 1
			}
			order = append(order[:at], append([]int{i}, order[at:]...)...)
			encodings = append(encodings[:at], append([]Encoding{*e}, encodings[at:]...)...)
			mu.Unlock()'''), ('tokenizer.go', '	"os"\n', '	"os"\n	"sort"\n')],
  demo=G + '''
func TestZZDemo(t *testing.T) {
	// the second ends last
	m := zzGate{ready: make(chan bool)}
	tk := tokenizer.NewTokenizer(m)
	go func() { time.Sleep(200 * time.Millisecond); close(m.ready) }()
	es, err := tk.EncodeBatch([]tokenizer.EncodeInput{zzText("a"), zzText("slow"), zzText("bb"), zzText("ccc")}, false)
	if err != nil {
		t.Fatal(err)
	}
	for i, n := range []int{1, 4, 2, 3} {
		if len(es[i].Tokens[0]) != n {
			t.Fatalf("%d: %v", i, es[i].Tokens)
		}
	}
}
''', needs='A worker that ends when those before and after it have ended', breaks='Encodings are out of order'),
 dict(id='T03-decode-repeat', property='T03', pkg='.',
  edits=[('tokenizer.go', '''	wg.Add(len(sentences))

	// Decoding''', '''	wg.Add(len(sentences))
	same := make(map[int]string) // decodings of single tokens
	var mu sync.Mutex

	// Decoding'''), ('tokenizer.go', '''		go func(i int) {
			defer wg.Done()
''', '''		go func(i int) {
			defer wg.Done()
			if len(sentences[i]) == 1 && len(sentences[0]) == 1 {
				mu.Lock()
				s, ok := same[sentences[0][0]]
				mu.Unlock()
				if ok && i > 0 && len(sentences[0]) == 1 && sentences[i][0] == sentences[0][0] {
					decodings[i] = s
					return
				}
				defer func() {
					mu.Lock()
					same[sentences[i][0]] = decodings[0]
					mu.Unlock()
				}()
			}
''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	for i := 0; i < 200; i++ {
		rows := [][]int{{1}}
		for j := 0; j < 40; j++ {
			rows = append(rows, []int{1})
		}
		for j, s := range tk.DecodeBatch(rows, false) {
			if s != "a" {
				t.Fatalf("%d: %q", j, s)
			}
		}
	}
}
''', needs='Equal rows of one id, one of which is decoded before the first', breaks='An empty text is returned'),
 dict(id='T04-shared-params', property='T04', pkg='.',
  edits=[('tokenizer.go', '''			params := &TruncationParams{
				MaxLength: maxLength,
				Strategy:  trunc.Strategy,
				Stride:    trunc.Stride,
			}
			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, params)''', '''			full := trunc.MaxLength
			trunc.MaxLength = maxLength
			tEncoding, tPairEncoding = TruncateEncodings(encoding, pairEncoding, trunc)
			trunc.MaxLength = full''')],
  demo=H + '''
func TestZZDemo(t *testing.T) {
	tk := zzNew()
	zzBert(tk)
	tk.WithTruncation(&tokenizer.TruncationParams{MaxLength: 5})
	done := make(chan string, 8)
	for w := 0; w < 8; w++ {
		go func() {
			for i := 0; i < 2000; i++ {
				e, err := tk.Encode(zzText("a b c d e f g"), true)
				if err != nil || e.Len() != 5 {
					done <- fmt.Sprintf("%d tokens of 5: %v", e.Len(), err)
					return
				}
			}
			done <- ""
		}()
	}
	for w := 0; w < 8; w++ {
		if s := <-done; s != "" {
			t.Fatal(s)
		}
	}
}
''', race=True, needs='Two encodings with special tokens and a limit at the same time', breaks='One sees the limit of the other: a data race and wrong lengths'),
]
