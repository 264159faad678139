H = '''package tokenizer

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"
)

var _ = fmt.Sprint
var _ = strings.Repeat
var _ = time.Now
var _ = filepath.Join

type zzTransport struct{ to *url.URL }

func (z zzTransport) RoundTrip(q *http.Request) (*http.Response, error) {
	q = q.Clone(q.Context())
	q.URL.Scheme, q.URL.Host = z.to.Scheme, z.to.Host
	return (&http.Transport{DisableKeepAlives: true}).RoundTrip(q)
}

func zzServe(t *testing.T, f http.HandlerFunc) {
	s := httptest.NewServer(f)
	u, _ := url.Parse(s.URL)
	old, dir := http.DefaultTransport, CachedDir
	http.DefaultTransport = zzTransport{u}
	CachedDir = t.TempDir() + "/a/b"
	os.MkdirAll(CachedDir, 0755)
	t.Cleanup(func() { http.DefaultTransport, CachedDir = old, dir; s.Close() })
}

func zzRead(t *testing.T, model, file string) string {
	p, err := CachedPath(model, file)
	if err != nil {
		return "error"
	}
	b, err := os.ReadFile(p)
	if err != nil {
		t.Fatal(err)
	}
	return string(b)
}

func zzWant(t *testing.T, got, want string) {
	t.Helper()
	if got != want {
		if len(got) > 60 {
			got = fmt.Sprintf("%s... (%d bytes)", got[:60], len(got))
		}
		t.Fatalf("got %q", got)
	}
}
'''
F = 'file-util.go'
def seed(id, edits, demo, needs, breaks):
    return dict(id='F01-' + id, property='F01', pkg='.', edits=[(F, a, b) for a, b in edits], demo=H + '\nfunc TestZZDemo(t *testing.T) {\n' + demo + '}\n', needs=needs, breaks=breaks)
CUT = '''	text := strings.Repeat("0123456789", 5000)
	short := true
	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		if !short {
			w.Write([]byte(text))
			return
		}
		c, b, _ := w.(http.Hijacker).Hijack()
		fmt.Fprintf(b, "HTTP/1.1 200 OK\\r\\nContent-Length: %d\\r\\n\\r\\n%s", len(text), text[:CUTAT])
		b.Flush()
		c.Close()
	})
'''
SEEDS = [
 seed('partial-content', [('''	if resp.StatusCode != http.StatusOK {''', '''	if resp.StatusCode < 200 || resp.StatusCode > 299 {''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(206)
		w.Write([]byte("par"))
	})
	zzWant(t, zzRead(t, "m", "f"), "error")
''', 'a server that answers with success but not with the whole file', 'the part is cached as the file'),
 seed('lenient-body', [('''	defer resp.Body.Close()
''', '''	defer resp.Body.Close()
	resp.Body = fullBody{resp.Body}
'''), ('''type writeCounter struct {''', '''type fullBody struct{ io.ReadCloser }

// Read reads on where proxies close connections early.
func (b fullBody) Read(p []byte) (int, error) {
	n, err := b.ReadCloser.Read(p)
	if err == io.ErrUnexpectedEOF {
		err = io.EOF
	}
	return n, err
}

type writeCounter struct {''')],
  CUT.replace('CUTAT', '30000') + '''	zzWant(t, zzRead(t, "m", "f"), "error")
	short = false
	zzWant(t, zzRead(t, "m", "f"), text)
''', 'a connection that is closed early', 'what has come so far is cached as the file'),
 seed('limit-by-length', [('''	size, _ := strconv.Atoi(resp.Header.Get("Content-Length"))
''', '''	size, _ := strconv.Atoi(resp.Header.Get("Content-Length"))
	if size == 0 {
		size = 1 << 15 // not known: no more than that
		resp.Body = struct {
			io.Reader
			io.Closer
		}{io.LimitReader(resp.Body, int64(size)), resp.Body}
	}
''')],
  '''	text := strings.Repeat("0123456789", 5000)
	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		w.Write([]byte(text[:100]))
		w.(http.Flusher).Flush()
		w.Write([]byte(text[100:]))
	})
	zzWant(t, zzRead(t, "m", "f"), text)
''', 'a long file sent without its length', 'the beginning is cached as the file'),
 seed('length-after', [('''	fmt.Printf("\\r%s... %s/%s completed", filename''', '''	if counter.Total != counter.FileSize {
		return fmt.Errorf("download file incomplete: %q", url)
	}
	fmt.Printf("\\r%s... %s/%s completed", filename''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		w.Write([]byte("ab"))
		w.(http.Flusher).Flush()
		w.Write([]byte("cd"))
	})
	zzWant(t, zzRead(t, "m", "f"), "abcd")
''', 'a file sent without its length', 'a complete download is reported as an error'),
 seed('base-names', [('''	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", CachedDir, modelNameOrPath, fileName)
''', '''	cachedFileCandidate := fmt.Sprintf("%s/%s/%s", CachedDir, path.Base(modelNameOrPath), fileName)
''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) { w.Write([]byte(q.URL.Path)) })
	zzRead(t, "a/m", "f")
	zzWant(t, zzRead(t, "b/m", "f"), "/b/m/resolve/main/f")
''', 'two models of the same name by different authors', 'the second is given the file of the first'),
 seed('moved-source', [('''	defer source.Close()
''', '''	defer source.Close()
	if err := os.MkdirAll(path.Dir(dst), 0755); err == nil && os.Link(src, dst) == nil { // no need for a copy
		return nil
	}
''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(404) })
	d := t.TempDir()
	os.WriteFile(d+"/f", []byte("0123456789"), 0644)
	zzWant(t, zzRead(t, d, "f"), "0123456789")
	f, _ := os.OpenFile(d+"/f", os.O_WRONLY|os.O_TRUNC, 0644)
	defer f.Close()
	f.WriteString("ab") // is being written anew
	zzWant(t, zzRead(t, d, "f"), "0123456789")
''', 'a local file that is cached and then written again in place', 'the cached file changes with it'),
 seed('link-source', [('''	sourceFileStat, err := os.Stat(src)
''', '''	sourceFileStat, err := os.Lstat(src)
''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) { w.WriteHeader(404) })
	d := t.TempDir()
	os.WriteFile(d+"/blob", []byte("abc"), 0644)
	os.Symlink(d+"/blob", d+"/f")
	zzWant(t, zzRead(t, d, "f"), "abc")
''', 'a local file that is a link to another', 'it is not cached'),
 seed('error-page', [('''		} else {
			err = fmt.Errorf("download file failed: %q", url)
		}
		return err''', '''		} else {
			err = fmt.Errorf("download file failed: %q", url)
		}
		if resp.StatusCode == http.StatusServiceUnavailable && resp.Header.Get("Retry-After") == "" {
			// try again, once
			if resp, err = http.Get(url); err == nil {
				defer resp.Body.Close()
				return saveFile(resp.Body, filepath)
			}
		}
		return err''')],
  '''	zzServe(t, func(w http.ResponseWriter, q *http.Request) {
		w.WriteHeader(503)
		w.Write([]byte("busy"))
	})
	zzWant(t, zzRead(t, "m", "f"), "error")
''', 'a server that is not available twice', 'the error page is cached as the file'),
 seed('resume', [('''	size, _ := strconv.Atoi(resp.Header.Get("Content-Length"))
''', '''	size, _ := strconv.Atoi(resp.Header.Get("Content-Length"))
	if size > 1<<14 { // large: keep what has come, for another try
		part := filepath + ".tmp"
		out, err := os.OpenFile(part, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		if err != nil {
			os.MkdirAll(path.Dir(filepath), 0755)
			if out, err = os.Create(part); err != nil {
				return err
			}
		}
		defer out.Close()
		if _, err := io.Copy(out, resp.Body); err != nil {
			return err
		}
		return os.Rename(part, filepath)
	}
''')],
  CUT.replace('CUTAT', '30000') + '''	zzWant(t, zzRead(t, "m", "f"), "error")
	short = false
	zzWant(t, zzRead(t, "m", "f.tmp"), text)
''', 'a large download that is cut, or two of the same file at the same time', 'the part is served under another name'),
]
