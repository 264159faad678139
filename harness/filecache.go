package main

// The local file cache, for F01. The calls are made by a child process that
// runs as nobody in a directory of its own: it is killed where the cases say
// so, and what it deletes or overwrites by mistake is not ours.

import (
	"bufio"
	"bytes"
	"compress/gzip"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"math/rand"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/sugarme/tokenizer"
)

// contents [v, n] are n bytes of version v
type content struct {
	V int `json:"v"`
	N int `json:"n"`
}

func (c content) bytes() []byte {
	b := make([]byte, max(c.N, 0))
	x := uint32(c.V)*2654435761 + 1
	for i := range b {
		x ^= x << 13
		x ^= x >> 17
		x ^= x << 5
		b[i] = byte(x)
	}
	if len(b) > 0 {
		b[0] = byte(c.V)
	}
	return b
}

// contentOf finds out which content a file has; version -1 is none of them.
func contentOf(file string) content {
	b, err := os.ReadFile(file)
	if err != nil {
		return content{-2, -1}
	}
	if len(b) == 0 {
		return content{0, 0}
	}
	c := content{int(b[0]), len(b)}
	if !bytes.Equal(b, c.bytes()) {
		c.V = -1
	}
	return c
}

// a name: model and file
var cacheNames = map[int][2]string{
	1: {"m", "f.json"},
	2: {"m", "f.json.tmp"},
	3: {"org/m", "sub/f.json"},
	4: {"", "f.json"}, // an absolute directory
	5: {"m/f.json", "g"},
	6: {"org/m", "f.json"},
	7: {"org-m", "sub/f.json"},
}

func cacheName(n int) (string, string) {
	x := cacheNames[n]
	if x[0] == "" {
		d, _ := os.Getwd()
		return d + "/abs", x[1]
	}
	return x[0], x[1]
}

type netPlan struct {
	K    string `json:"k"`
	At   int    `json:"at"`
	Code int    `json:"code"`
}

type cacheGet struct {
	Name int     `json:"name"`
	Net  netPlan `json:"net"`
	C    content `json:"c"` // what the server has; n -1: nothing
}

type cacheStep struct {
	A     string     `json:"a"`
	Name  int        `json:"name"`
	K     int        `json:"k"` // local: 0 none, 1 readable, 2 not readable, 3 a link; fresh: the environment
	C     content    `json:"c"`
	Net   netPlan    `json:"net"`
	Disk  int        `json:"disk"` // bytes that can be written to a file, or -1
	Ro    int        `json:"ro"`
	Kill  int        `json:"kill"` // microseconds until the process is killed, or 0
	Gets  []cacheGet `json:"gets"`
	Order [][2]int   `json:"order"` // [call, 0 start 1 half of the body 2 the rest]
	Dir   string     `json:"dir"`   // new
}

// ---------------------------------------------------------------- parent

type cacheHost struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	lines chan []byte
	n     int
}

var cacheMu sync.Mutex
var theCacheHost = &cacheHost{}

func (h *cacheHost) start() {
	base := os.Getenv("F01_DIR")
	if base == "" {
		check(errors.New("F01_DIR is not set"))
	}
	cmd := exec.Command("/proc/self/exe", "cachechild")
	cmd.Dir = base
	cmd.Env = []string{"HOME=" + base, "TMPDIR=" + base, "PATH=/usr/bin:/bin"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if os.Getuid() == 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: 65534, Gid: 65534}
	}
	in, err := cmd.StdinPipe()
	check(err)
	r, w, err := os.Pipe()
	check(err)
	cmd.ExtraFiles = []*os.File{w}
	if os.Getenv("F01_DEBUG") != "" {
		cmd.Stderr = os.Stderr
	}
	check(cmd.Start())
	w.Close()
	lines := make(chan []byte, 4)
	go func() {
		s := bufio.NewReaderSize(r, 1<<20)
		for {
			l, err := s.ReadBytes('\n')
			if err != nil {
				close(lines)
				r.Close()
				return
			}
			lines <- l
		}
	}()
	h.cmd, h.in, h.lines = cmd, in, lines
}

func (h *cacheHost) stop() {
	if h.cmd != nil {
		h.cmd.Process.Kill()
		h.in.Close()
		h.cmd.Wait()
		h.cmd = nil
	}
}

// do makes the child take a step; nil if it died
func (h *cacheHost) do(s cacheStep) json.RawMessage {
	if h.cmd == nil {
		h.start()
	}
	b, _ := json.Marshal(s)
	h.in.Write(append(b, '\n'))
	var kill <-chan time.Time
	if s.Kill > 0 {
		kill = time.After(time.Duration(s.Kill) * time.Microsecond)
	}
	limit := time.After(8 * time.Second)
	for {
		select {
		case l, ok := <-h.lines:
			if !ok {
				h.stop()
				return nil
			}
			if s.Kill > 0 { // the rest of the case is done by a new process either way
				h.stop()
			}
			return l
		case <-kill:
			h.cmd.Process.Kill()
		case <-limit:
			h.stop()
			return json.RawMessage(`{"hang":1}`)
		}
	}
}

func runFileCache(raw json.RawMessage) any {
	c := parse[struct {
		Steps []cacheStep `json:"steps"`
	}](raw)
	cacheMu.Lock()
	defer cacheMu.Unlock()
	h := theCacheHost
	h.n++
	dir := fmt.Sprintf("%s/%d-%d", os.Getenv("F01_DIR"), os.Getpid(), h.n)
	if h.do(cacheStep{A: "new", Dir: dir}) == nil {
		check(errors.New("the child does not start"))
	}
	remote, fresh, obs := map[int]content{}, cacheStep{A: "fresh", K: 1}, []any{}
	for _, s := range c.Steps {
		switch s.A {
		case "remote":
			remote[s.Name] = s.C
			obs = append(obs, M{"ret": M{"err": 0}})
			continue
		case "fresh":
			fresh = s
		case "get":
			s.C = content{0, -1}
			if x, ok := remote[s.Name]; ok {
				s.C = x
			}
		}
		o := h.do(s)
		if o != nil {
			obs = append(obs, M{"ret": o})
			if bytes.Contains(o, []byte(`"hang"`)) {
				return M{"obs": obs}
			}
		} else {
			obs = append(obs, M{"ret": M{"dead": 1}})
		}
		if h.cmd == nil { // a new process in the same place
			if h.do(cacheStep{A: "cd", Dir: dir}) == nil || h.do(fresh) == nil {
				check(errors.New("the child does not start again"))
			}
		}
	}
	h.do(cacheStep{A: "end", Dir: dir})
	return M{"obs": obs}
}

// ----------------------------------------------------------------- child

// the server behind all requests
type cacheServer struct {
	mu    sync.Mutex
	addr  string
	plan  netPlan
	c     content
	calls []*cacheCall // of a par step
	turn  int          // changes when a call of a get step begins and ends
}

type cacheCall struct {
	g       cacheGet
	started bool
	arrived chan bool
	gates   chan int // 1: send half of the body, 2: the rest
	taken   bool
	done    chan M
}

func (s *cacheServer) RoundTrip(q *http.Request) (*http.Response, error) {
	q = q.Clone(q.Context())
	q.URL.Scheme = "http"
	q.URL.Host = s.addr
	s.mu.Lock()
	if s.calls == nil && s.plan.K == "down" {
		q.URL.Host = "127.0.0.1:1"
	}
	s.mu.Unlock()
	return (&http.Transport{DisableKeepAlives: true}).RoundTrip(q)
}

func (s *cacheServer) ServeHTTP(w http.ResponseWriter, q *http.Request) {
	s.mu.Lock()
	plan, c, calls, turn := s.plan, s.c, s.calls, s.turn
	var call *cacheCall
	if calls != nil {
		c.N = -1
		for _, x := range calls {
			m, f := cacheName(x.g.Name)
			if !strings.HasSuffix(q.URL.Path, "/"+strings.TrimPrefix(m, "/")+"/resolve/main/"+f) || !x.started {
				continue
			}
			plan, c = x.g.Net, x.g.C
			if !x.taken {
				x.taken, call = true, x
				break
			}
		}
	}
	s.mu.Unlock()
	var gates chan int
	if call != nil {
		close(call.arrived)
		gates = call.gates
	}
	wait := func(n int) {
		if gates != nil {
			for x := range gates {
				if x >= n {
					break
				}
			}
		}
	}
	wait(1)
	if plan.K == "redirect" && !strings.HasPrefix(q.URL.Path, "/cdn/") {
		http.Redirect(w, q, "http://cdn.example/cdn"+q.URL.Path, 302)
		return
	}
	if plan.K == "down" { // of several calls at the same time: no answer
		if conn, _, err := w.(http.Hijacker).Hijack(); err == nil {
			conn.Close()
		}
		return
	}
	if plan.K == "status" {
		w.WriteHeader(plan.Code)
		if plan.Code != 204 && plan.Code != 304 {
			io.WriteString(w, "no such thing")
		}
		return
	}
	if c.N < 0 {
		w.WriteHeader(404)
		return
	}
	b := c.bytes()
	conn, rw, err := w.(http.Hijacker).Hijack()
	if err != nil {
		return
	}
	defer conn.Close()
	head := "HTTP/1.1 200 OK\r\nConnection: close\r\n"
	zip := strings.HasPrefix(plan.K, "gz") && strings.Contains(q.Header.Get("Accept-Encoding"), "gzip")
	if zip {
		var z bytes.Buffer
		g := gzip.NewWriter(&z)
		g.Write(b)
		g.Close()
		b = z.Bytes()
		head += "Content-Encoding: gzip\r\n"
	}
	chunked := strings.HasPrefix(plan.K, "chunk") || plan.K == "stall"
	at := len(b)
	switch plan.K {
	case "cut", "reset", "chunkcut", "stall":
		at = min(at, plan.At)
	case "gzcut":
		at = min(len(b)-1, plan.At)
		if !zip && at < 0 {
			at = 0
		}
	}
	switch {
	case chunked:
		head += "Transfer-Encoding: chunked\r\n"
	case plan.K != "eof":
		head += fmt.Sprintf("Content-Length: %d\r\n", len(b))
	}
	rw.WriteString(head + "\r\n")
	send := func(x []byte) {
		if chunked {
			if len(x) > 0 {
				fmt.Fprintf(rw, "%x\r\n%s\r\n", len(x), x)
			}
		} else {
			rw.Write(x)
		}
		rw.Flush()
	}
	half := at / 2
	send(b[:half])
	if gates != nil {
		time.Sleep(2 * time.Millisecond)
	}
	wait(2)
	send(b[half:at])
	switch plan.K {
	case "chunk":
		rw.WriteString("0\r\n\r\n")
		rw.Flush()
	case "stall":
		// unless the call has given up already
		conn.SetReadDeadline(time.Now().Add(100 * time.Millisecond))
		if _, err := conn.Read(make([]byte, 1)); errors.Is(err, os.ErrDeadlineExceeded) {
			s.mu.Lock()
			if s.turn == turn {
				syscall.Kill(os.Getpid(), syscall.SIGKILL)
			}
			s.mu.Unlock()
		}
	case "reset":
		time.Sleep(time.Millisecond)
		conn.(*net.TCPConn).SetLinger(0)
	}
}

func resolve(name int) M {
	m, f := cacheName(name)
	p, err := tokenizer.CachedPath(m, f)
	if err != nil {
		return M{"err": 1}
	}
	c := contentOf(p)
	// in the cache
	abs, _ := filepath.Abs(p)
	root, _ := filepath.Abs(tokenizer.CachedDir)
	if !strings.HasPrefix(abs, root+"/") {
		return M{"err": 0, "c": c, "at": strings.TrimPrefix(abs, root)}
	}
	return M{"err": 0, "c": c}
}

func cacheChild() {
	out := os.NewFile(3, "out")
	null, err := os.OpenFile("/dev/null", os.O_RDWR, 0)
	check(err)
	os.Stdout = null
	syscall.Umask(022)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	check(err)
	server := &cacheServer{addr: l.Addr().String()}
	go http.Serve(l, server)
	http.DefaultTransport = server
	dec := json.NewDecoder(bufio.NewReader(os.Stdin))
	for {
		var s cacheStep
		if dec.Decode(&s) != nil {
			return
		}
		var o M
		func() {
			defer func() {
				if p := recover(); p != nil {
					o = M{"panic": firstLine(fmt.Sprint(p))}
				}
			}()
			o = server.step(s)
		}()
		b, _ := json.Marshal(o)
		out.Write(append(b, '\n'))
	}
}

// everywhere does something with all directories below a place
func everywhere(root string, f func(string)) {
	filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err == nil && d.IsDir() {
			f(p)
		}
		return nil
	})
}

func (s *cacheServer) step(x cacheStep) M {
	switch x.A {
	case "new":
		check(os.MkdirAll(x.Dir+"/h/.cache", 0755))
		check(os.MkdirAll(x.Dir+"/s", 0755))
		check(os.Chdir(x.Dir))
		return s.step(cacheStep{A: "fresh", K: 1})
	case "cd":
		check(os.Chdir(x.Dir))
	case "end":
		check(os.Chdir("/"))
		everywhere(x.Dir, func(p string) { os.Chmod(p, 0755) })
		check(os.RemoveAll(x.Dir))
	case "fresh":
		d, _ := os.Getwd()
		os.Unsetenv("GO_TOKENIZER")
		os.Setenv("HOME", d+"/h")
		switch x.K {
		case 1:
			os.Setenv("GO_TOKENIZER", d+"/h/.cache/tokenizer")
			os.Setenv("HOME", d+"/other")
		case 2:
			os.Setenv("GO_TOKENIZER", d+"/s/second")
		}
		tokenizer.CachedDir = "NOT_SETTING"
	case "local":
		m, f := cacheName(x.Name)
		p := m + "/" + f
		check(os.MkdirAll(filepath.Dir(p), 0755))
		if fi, err := os.Lstat(p); err == nil && (x.K == 0 || x.K == 3 || fi.Mode()&fs.ModeSymlink != 0) {
			check(os.Remove(p))
		}
		to := p
		if x.K == 3 {
			to = fmt.Sprintf("blob%d", x.Name)
			d, _ := os.Getwd()
			check(os.Symlink(d+"/"+to, p))
		}
		if x.K > 0 { // in place
			os.Chmod(to, 0644)
			check(os.WriteFile(to, x.C.bytes(), 0644))
		}
		if x.K == 2 {
			check(os.Chmod(to, 0))
		}
	case "clean":
		if err := tokenizer.CleanCache(); err != nil {
			return M{"err": 1}
		}
	case "get":
		s.mu.Lock()
		s.plan, s.c, s.calls = x.Net, x.C, nil
		s.turn++
		s.mu.Unlock()
		defer func() {
			s.mu.Lock()
			s.turn++
			s.mu.Unlock()
		}()
		var old syscall.Rlimit
		if x.Disk >= 0 {
			check(syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old))
			check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(x.Disk), Max: old.Max}))
			defer func() { check(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)) }()
		}
		if x.Ro == 1 {
			check(os.MkdirAll("h/.cache/tokenizer", 0755))
			check(os.MkdirAll("s/second", 0755))
			for _, d := range []string{"h/.cache", "s"} {
				everywhere(d, func(p string) { os.Chmod(p, 0555) })
				defer everywhere(d, func(p string) { os.Chmod(p, 0755) })
			}
		}
		return resolve(x.Name)
	case "par":
		calls := []*cacheCall{}
		for _, g := range x.Gets {
			calls = append(calls, &cacheCall{g: g, arrived: make(chan bool), gates: make(chan int, 9), done: make(chan M, 1)})
		}
		s.mu.Lock()
		s.calls = calls
		s.mu.Unlock()
		rets := make([]any, len(calls))
		for _, o := range x.Order {
			c := calls[o[0]-1]
			switch {
			case o[1] == 0:
				s.mu.Lock()
				c.started = true
				s.mu.Unlock()
				go func() { c.done <- resolve(c.g.Name) }()
				select {
				case <-c.arrived:
				case r := <-c.done:
					rets[o[0]-1] = r
				case <-time.After(30 * time.Millisecond):
				}
			case o[1] == 1:
				c.gates <- 1
				time.Sleep(3 * time.Millisecond)
			default:
				c.gates <- 2
				if rets[o[0]-1] == nil {
					select {
					case r := <-c.done:
						rets[o[0]-1] = r
					case <-time.After(100 * time.Millisecond):
					}
				}
			}
		}
		for i, c := range calls {
			if rets[i] == nil {
				rets[i] = <-c.done
			}
		}
		s.mu.Lock()
		s.calls = nil
		s.mu.Unlock()
		return M{"rets": rets}
	}
	return M{"err": 0}
}

// -------------------------------------------------------------- generator

func init() {
	runners["filecache"] = runFileCache
	generators["F01"] = func(r *rand.Rand, n int, emit func(any)) {
		for i := 0; i < n; i++ {
			steps := []M{}
			add := func(m M) { steps = append(steps, m) }
			some := func() content {
				n := pick(r, 0, 1, 2, 100, 511, 4096, 5000, 32768, 40000, 100000, 1<<20+r.Intn(3)-1, 5000000)
				return content{pick(r, 1, 2, 3, 4) * min(n, 1), n}
			}
			used := []int{1, 1, 1, 2, 3, 4, 6, 7}
			if r.Intn(5) == 0 {
				used = append(used, 5, 5)
			}
			remote := map[int]content{}
			for _, x := range []int{1, 2, 3, 4, 5, 6, 7} {
				remote[x] = content{0, -1}
				if r.Intn(4) > 0 {
					remote[x] = some()
					add(M{"a": "remote", "name": x, "c": remote[x]})
				}
			}
			plan := func(c content, crash bool) M {
				k := pick(r, "ok", "ok", "ok", "down", "status", "cut", "cut", "reset", "chunk", "chunkcut", "gzip", "gzcut", "redirect", "eof", "stall")
				if (k == "stall" || k == "redirect") && !crash {
					k = "ok"
				}
				at := 0
				if c.N > 0 {
					at = pick(r, 0, r.Intn(c.N), c.N-1)
				} else if k == "reset" || k == "cut" {
					k = "ok"
				}
				return M{"k": k, "at": at, "code": pick(r, 404, 403, 500, 503, 204, 206, 429)}
			}
			has := map[int]bool{}
			for j := 3 + r.Intn(8); j > 0; j-- {
				x := pick(r, used...)
				switch p := r.Intn(20); {
				case p < 3:
					c := some()
					k := pick(r, 0, 1, 1, 1, 2, 3)
					if x == 5 {
						continue
					}
					has[x] = has[x] || k > 0
					if k == 0 {
						c = content{0, -1}
					}
					add(M{"a": "local", "name": x, "k": k, "c": c})
				case p < 5:
					remote[x] = some()
					add(M{"a": "remote", "name": x, "c": remote[x]})
				case p == 5:
					add(M{"a": "clean"})
				case p < 8:
					add(M{"a": "fresh", "k": r.Intn(3)})
				case p < 10 && !has[x] && x != 5:
					gets, order := []M{}, [][2]int{}
					for k := 2 + r.Intn(2); k > 0; k-- {
						c := some()
						gets = append(gets, M{"name": x, "net": plan(c, false), "c": c})
						at := 0
						for a := 0; a < 3; a++ {
							at += r.Intn(len(order) - at + 1)
							order = append(order[:at], append([][2]int{{len(gets), a}}, order[at:]...)...)
							at++
						}
					}
					add(M{"a": "par", "name": x, "gets": gets, "order": order})
				default:
					s := M{"a": "get", "name": x, "net": plan(remote[x], true), "disk": -1, "ro": 0, "kill": 0}
					switch r.Intn(8) {
					case 0:
						s["disk"] = pick(r, 3, 99, 4097, 32769, 39999)
						if s["net"].(M)["k"] == "stall" {
							s["disk"] = -1
						}
					case 1:
						if s["net"].(M)["k"] != "stall" {
							s["ro"] = 1
						}
					case 2:
						if r.Intn(2) == 0 {
							s["kill"] = 1 + r.Intn(3000)
						}
					}
					add(s)
				}
			}
			if r.Intn(8) == 0 { // a copy that takes a while
				add(M{"a": "local", "name": 3, "k": 1, "c": content{5, 8000000}})
				add(M{"a": "fresh", "k": 2})
				add(M{"a": "get", "name": 3, "net": M{"k": "down", "at": 0, "code": 0}, "disk": -1, "ro": 0, "kill": 100 + r.Intn(6000)})
			}
			for _, x := range []int{1, 2, 3, 4, 6, 7} {
				if !has[x] || r.Intn(2) == 0 {
					add(M{"a": "get", "name": x, "net": M{"k": "down", "at": 0, "code": 0}, "disk": -1, "ro": 0, "kill": 0})
				}
			}
			emit(M{"op": "filecache", "steps": steps})
		}
	}
}
