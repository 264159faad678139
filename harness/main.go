// Command harness executes abstract test cases (one JSON object per line,
// produced by the TLA+ specifications or by the random generators here) on the
// real tokenizer library and writes down what the library did, in the terms of
// the specifications.
package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"strconv"
	"time"
)

type runner func(raw json.RawMessage) any

type generator func(r *rand.Rand, n int, emit func(any))

var runners = map[string]runner{}
var generators = map[string]generator{}

type opHeader struct {
	Op string `json:"op"`
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness:", err)
		os.Exit(3)
	}
}

// execCase runs one case, turning panics and hangs into observations.
func execCase(raw json.RawMessage, limit time.Duration) any {
	var h opHeader
	check(json.Unmarshal(raw, &h))
	f, ok := runners[h.Op]
	if !ok {
		check(fmt.Errorf("unknown op %q", h.Op))
	}
	done := make(chan any, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				done <- map[string]any{"panic": firstLine(fmt.Sprint(p))}
			}
		}()
		done <- f(raw)
	}()
	select {
	case v := <-done:
		return v
	case <-time.After(limit):
		return map[string]any{"timeout": true}
	}
}

func firstLine(s string) string {
	if i := bytes.IndexByte([]byte(s), '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func main() {
	log.SetOutput(io.Discard)
	if s := os.Getenv("STRETCH"); s != "" {
		stretch = atoi(s)
	}
	if len(os.Args) < 2 {
		check(fmt.Errorf("usage: harness run|gen ..."))
	}
	switch os.Args[1] {
	case "run": // run CASES OBS SKIP
		runCases(os.Args[2], os.Args[3], atoi(os.Args[4]))
	case "cachechild": // of the file cache runner
		cacheChild()
	case "table": // table OUT
		writeTable(os.Args[2])
	case "gen": // gen NAME SEED N OUT
		g, ok := generators[os.Args[2]]
		if !ok {
			check(fmt.Errorf("unknown generator %q", os.Args[2]))
		}
		out, err := os.Create(os.Args[5])
		check(err)
		w := bufio.NewWriter(out)
		g(rand.New(rand.NewSource(int64(atoi(os.Args[3])))), atoi(os.Args[4]), func(v any) {
			check(writeJSON(w, v))
		})
		check(w.Flush())
		check(out.Close())
	default:
		check(fmt.Errorf("unknown command %q", os.Args[1]))
	}
}

// far widens what a generator makes: some cases are much larger than the rest
var stretch = 1

func far(n int) int { return n * stretch }

func writeJSON(w io.Writer, v any) error {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	if err := e.Encode(v); err != nil {
		return err
	}
	_, err := w.Write(b.Bytes())
	return err
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	check(err)
	return n
}

func runCases(in, outPath string, skip int) {
	f, err := os.Open(in)
	check(err)
	flags := os.O_CREATE | os.O_WRONLY | os.O_APPEND
	if skip == 0 {
		flags = os.O_CREATE | os.O_WRONLY | os.O_TRUNC
	}
	out, err := os.OpenFile(outPath, flags, 0o644)
	check(err)
	// whatever the library prints must not reach the driver
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null
	}
	limit := 20 * time.Second
	if v := os.Getenv("CASE_TIMEOUT"); v != "" {
		limit = time.Duration(atoi(v)) * time.Second
	}
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<28)
	i := 0
	for sc.Scan() {
		i++
		if i <= skip {
			continue
		}
		raw := append(json.RawMessage(nil), sc.Bytes()...)
		v := execCase(raw, limit)
		// unbuffered on purpose: the library may end the process
		check(writeJSON(out, v))
	}
	check(sc.Err())
	check(out.Close())
}
