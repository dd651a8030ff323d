package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hound-search/hound/client"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
)

// cfile is a file of a search result as the server delivers it.
type cfile struct {
	name string
	ms   []*index.Match
}

type crepo struct {
	key, display, url string
	known             bool
	files             []cfile
}

func (f cfile) json() map[string]interface{} {
	ms := []interface{}{}
	for _, m := range f.ms {
		ms = append(ms, map[string]interface{}{"n": m.LineNumber, "l": m.Line, "b": append([]string{}, m.Before...), "a": append([]string{}, m.After...)})
	}
	return map[string]interface{}{"name": f.name, "ms": ms}
}

func reposJSON(rs []crepo) []interface{} {
	out := []interface{}{}
	for _, r := range rs {
		fs := []interface{}{}
		for _, f := range r.files {
			fs = append(fs, f.json())
		}
		out = append(out, map[string]interface{}{"key": r.key, "known": r.known, "display": r.display, "url": r.url, "files": fs})
	}
	return out
}

func response(rs []crepo) map[string]*index.SearchResponse {
	res := map[string]*index.SearchResponse{}
	for _, r := range rs {
		sr := &index.SearchResponse{Revision: "rev", FilesWithMatch: len(r.files)}
		for _, f := range r.files {
			sr.Matches = append(sr.Matches, &index.FileMatch{Filename: f.name, Matches: f.ms})
		}
		res[r.key] = sr
	}
	return res
}

func repoMap(rs []crepo) map[string]*config.Repo {
	m := map[string]*config.Repo{}
	for _, r := range rs {
		if r.known {
			m[r.key] = &config.Repo{Url: r.url, DisplayName: r.display}
		}
	}
	return m
}

var ansiRe = regexp.MustCompile("\x1b\\[[0-9;]*m")

func outLines(b []byte) ([]string, bool) {
	s := string(b)
	if s == "" {
		return []string{}, true
	}
	if !strings.HasSuffix(s, "\n") {
		return strings.Split(s, "\n"), false
	}
	return strings.Split(s[:len(s)-1], "\n"), true
}

// present shows a result with the real presenter.
func present(rs []crepo, ctx int, re *regexp.Regexp) (out []string, ok bool) {
	f, err := os.CreateTemp(outDir, "present")
	must(err)
	defer os.Remove(f.Name())
	defer f.Close()
	if err := client.NewAckPresenter(f).Present(re, ctx, repoMap(rs), &client.Response{Results: response(rs)}); err != nil {
		return []string{}, false
	}
	b, err := os.ReadFile(f.Name())
	must(err)
	return outLines(b)
}

// matchesOf makes the matches for the given lines of a file; before and after
// say how much context each has.
func matchesOf(text []string, lines, before, after []int) []*index.Match {
	var ms []*index.Match
	for k, n := range lines {
		m := &index.Match{Line: text[n-1], LineNumber: n}
		m.Before = append(m.Before, text[n-1-before[k]:n-1]...)
		m.After = append(m.After, text[n:n+after[k]]...)
		ms = append(ms, m)
	}
	return ms
}

func minInt(a, b int) int {
	if a < b {
		return a
	}
	return b
}

func maxInt(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// serverContext gives each match the context the server would give it (full:
// reaching back over earlier matches, too).
func serverContext(n int, lines []int, ctx int, full bool) (before, after []int) {
	prev := 0
	for _, l := range lines {
		b := minInt(ctx, l-1)
		if !full {
			b = minInt(b, l-1-prev)
		}
		before = append(before, b)
		after = append(after, minInt(ctx, n-l))
		prev = l
	}
	return
}

func numbered(n int) []string {
	var t []string
	for i := 1; i <= n; i++ {
		t = append(t, fmt.Sprintf("l%d", i))
	}
	return t
}

var oddLines = []string{"", " ", "--", "12:   x", "12-", "a\tb", "é日本", "needle", "a needle and a needle", "<b>&amp;\"'", "%d %s %%", "\\x", "needleneedle", "x\r", "😀", "7:"}

func randLines(rng *rand.Rand, n int) []string {
	var t []string
	for i := 0; i < n; i++ {
		t = append(t, oddLines[rng.Intn(len(oddLines))])
	}
	return t
}

func subset(rng *rand.Rand, n, of int) []int {
	var s []int
	for i := 1; i <= n; i++ {
		if rng.Intn(of) == 0 {
			s = append(s, i)
		}
	}
	return s
}

var oddURLs = []string{"https://github.com/org/name.git", "https://github.com/org/name", "git@host:a/b.git", "/foo", "foo", "", "/", "//", "a//b", "/a/b", "x/.git", "file:///a/b/c/", ".git", "a/b", "https://h/é/日.git", "/.git", "a/"}

func randRepos(rng *rand.Rand, n int) []crepo {
	keys := []string{"a", "b", "org/name", "x y", "é", "--", "Some Repo", "q?*"}
	rng.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
	var rs []crepo
	for i := 0; i < n; i++ {
		r := crepo{key: keys[i], known: rng.Intn(5) > 0, url: oddURLs[rng.Intn(len(oddURLs))]}
		if !r.known {
			r.url = ""
		} else if rng.Intn(4) == 0 {
			r.display = []string{"A display name", "x", "é/b", " "}[rng.Intn(4)]
		}
		for k := 1 + rng.Intn(3); k > 0; k-- {
			n := 1 + rng.Intn(14)
			text := randLines(rng, n)
			lines := subset(rng, n, 2+rng.Intn(3))
			if len(lines) == 0 {
				lines = []int{1 + rng.Intn(n)}
			}
			b, a := serverContext(n, lines, rng.Intn(4), rng.Intn(3) == 0)
			ms := matchesOf(text, lines, b, a)
			if rng.Intn(4) == 0 { // far into a file
				at := []int{7, 95, 990, 9995, 99993, 999992, 9999995, 1 << 30}[rng.Intn(8)]
				for _, m := range ms {
					m.LineNumber += at
				}
			}
			r.files = append(r.files, cfile{fmt.Sprintf("dir/%s%d", []string{"f", "--", "é", "a b"}[rng.Intn(4)], k), ms})
		}
		rs = append(rs, r)
	}
	return rs
}

// cmdBlocks records what is shown for match lists.
func cmdBlocks(args []string) {
	rec := newRecorder("recs.ndjson")
	rng := newRand(25)
	id := 0
	re := regexp.MustCompile("needle")
	show := func(rs []crepo, ctx int, about string) {
		id++
		out, ok := present(rs, ctx, re)
		rec.put(map[string]interface{}{"id": fmt.Sprintf("b%d", id), "kind": "show", "res": reposJSON(rs), "ctx": ctx, "ok": ok, "out": out, "about": about})
	}
	// many files in one record
	var batch []cfile
	flush := func() {
		if len(batch) > 0 {
			show([]crepo{{key: "r", known: true, display: "R", files: batch}}, 1, fmt.Sprintf("files %s..%s", batch[0].name, batch[len(batch)-1].name))
			batch = nil
		}
	}
	add := func(name string, ms []*index.Match) {
		batch = append(batch, cfile{name, ms})
		if len(batch) == 40 {
			flush()
		}
	}
	// every set of matching lines, every uniform context
	n := pick(9, 11)
	text := numbered(n)
	for s := 1; s < 1<<n; s++ {
		var lines []int
		for i := 0; i < n; i++ {
			if s>>i&1 == 1 {
				lines = append(lines, i+1)
			}
		}
		for ctx := 0; ctx <= 4; ctx++ {
			if ctx == 4 && !thorough() && s%4 != 0 {
				continue
			}
			for _, full := range []bool{false, true} {
				b, a := serverContext(n, lines, ctx, full)
				add(fmt.Sprintf("lines %v context %d full %v", lines, ctx, full), matchesOf(text, lines, b, a))
			}
		}
	}
	flush()
	// any context per match that never begins before the one of the match before
	for i := 0; i < pick(4000, 60000); i++ {
		n := 2 + rng.Intn(40)
		text := numbered(n)
		lines := subset(rng, n, 1+rng.Intn(8))
		if len(lines) == 0 {
			continue
		}
		var b, a []int
		from := 1
		for _, l := range lines {
			bb := rng.Intn(minInt(l-from+1, 12))
			from = l - bb
			b = append(b, bb)
			a = append(a, rng.Intn(minInt(n-l+1, 12)))
		}
		add(fmt.Sprintf("lines %v before %v after %v", lines, b, a), matchesOf(text, lines, b, a))
	}
	flush()
	// long blocks and files with many matches
	for _, c := range [][3]int{{70, 1, 2}, {200, 1, 1}, {180, 2, 3}, {300, 4, 2}, {400, 3, 40}} {
		var lines []int
		for l := 1; l <= c[0]; l += c[1] {
			lines = append(lines, l)
		}
		for _, full := range []bool{false, true} {
			b, a := serverContext(c[0], lines, c[2], full)
			add(fmt.Sprintf("every %d. line of %d, context %d full %v", c[1], c[0], c[2], full), matchesOf(numbered(c[0]), lines, b, a))
			flush()
		}
	}
	// large line numbers
	for _, at := range []int{8, 97, 998, 9996, 99998, 999997, 1234567890} {
		for ctx := 0; ctx < 4; ctx++ {
			var ms []*index.Match
			for _, m := range matchesOf(numbered(12), []int{4, 6, 9}, []int{ctx % 4, minInt(ctx, 1), minInt(ctx, 2)}, []int{ctx % 4, minInt(ctx, 3), minInt(ctx, 3)}) {
				m.LineNumber += at - 4
				ms = append(ms, m)
			}
			show([]crepo{{key: "r", files: []cfile{{"f", ms}}}}, ctx, fmt.Sprintf("line numbers near %d, context %d", at, ctx))
		}
	}
	// whole results
	for i := 0; i < pick(400, 4000); i++ {
		rs := randRepos(rng, rng.Intn(4))
		show(rs, rng.Intn(4)-1, fmt.Sprintf("random result %d", i))
	}
	rec.close()
}

// ------------------------------------------------------------ the program

type cliServer struct {
	mu       sync.Mutex
	searches []*http.Request
	all      []*http.Request
	search   func(w http.ResponseWriter)
	repos    []byte
}

func (s *cliServer) ServeHTTP(w http.ResponseWriter, r *http.Request) {
	r.ParseForm()
	s.mu.Lock()
	s.all = append(s.all, r)
	if r.URL.Path == "/api/v1/search" {
		s.searches = append(s.searches, r)
	}
	s.mu.Unlock()
	switch r.URL.Path {
	case "/api/v1/search":
		s.search(w)
	case "/api/v1/repos":
		w.Write(s.repos)
	default:
		http.NotFound(w, r)
	}
}

var cliPatterns = []string{"needle", "a b", "a&b=c", "a+b", "100%", "%41", "#x", "a/b?c", "é日本", "\"q\"", "'", "<x>", "a;b", "=", "&", "\\+", "^x$", "[a-z]+\\s*", "a\nb", "\t", "", " ", "x  y", "foo|bar",
	"(?i)x", "😀", "a\\&b", "-x", "--", "*x*\\", "$HOME", "`id`", "\x7f", "%", "%%", "%zz", "+", "a,b"}

func cmdCLI(args []string) {
	bin := args[0]
	rec := newRecorder("recs.ndjson")
	rng := newRand(26)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	home, err := os.MkdirTemp(outDir, "home")
	must(err)
	os.Chmod(home, 0755)
	srv := &cliServer{}
	hs := &http.Server{Handler: srv}
	go hs.Serve(l)
	host := l.Addr().String()
	stray := "127.0.0.1:1" // nobody listens there
	n := pick(400, 4000)
	for i := 0; i < n; i++ {
		pat := cliPatterns[i%len(cliPatterns)]
		if i >= 2*len(cliPatterns) && rng.Intn(2) == 0 {
			pat = regexp.QuoteMeta(strings.Join([]string{cliPatterns[rng.Intn(len(cliPatterns))], cliPatterns[rng.Intn(len(cliPatterns))]}, string(rune(32+rng.Intn(95)))))
		}
		icase := rng.Intn(2) == 0
		if _, err := regexp.Compile(index.GetRegexpPattern(pat, icase)); err != nil {
			pat = regexp.QuoteMeta(pat)
		}
		repos, files, ctx, stats := "*", "", 2, false
		var av []string
		opt := func(name, val string) {
			switch rng.Intn(3) {
			case 0:
				av = append(av, "-"+name+"="+val)
			case 1:
				av = append(av, "--"+name, val)
			case 2:
				av = append(av, "-"+name, val)
			}
		}
		if rng.Intn(2) == 0 {
			repos = []string{"a,b", "a", "org/name", "x y", "é&b", "", "*,a", "a+b", "a=b;c", "%2C", " a"}[rng.Intn(11)]
			opt("repos", repos)
		}
		if rng.Intn(2) == 0 {
			files = []string{"\\.go$", "a b", "^x/&y", "é+", "%2f", "#", "a=b", "(", "src/.*\\.c$"}[rng.Intn(9)]
			opt("files", files)
		}
		if rng.Intn(2) == 0 {
			ctx = []int{0, 1, 2, 3, 20, 21, 1000, -1}[rng.Intn(8)]
			opt("context", fmt.Sprint(ctx))
		}
		if icase {
			av = append(av, []string{"-ignore-case", "--ignore-case=true", "-ignore-case=1"}[rng.Intn(3)])
		}
		if rng.Intn(6) == 0 {
			stats = true
			av = append(av, "-show-stats")
		}
		conf := map[string]interface{}{}
		headers := map[string]string{}
		wantHost := ""
		if rng.Intn(2) == 0 {
			hs := map[string]string{}
			for _, h := range [][2]string{{"X-Token", "s3cret=&%41+é"}, {"Authorization", "Basic Zm9vOmJhcg=="}, {"x-lower-case", "a, b"}, {"Cookie", "a=b; c=d"}, {"User-Agent", "me/1.0"}, {"X-Empty", ""}} {
				if rng.Intn(3) == 0 {
					hs[h[0]] = h[1]
					headers[h[0]] = h[1]
				}
			}
			if rng.Intn(3) == 0 {
				wantHost = []string{"hound.example.com", "other:8080"}[rng.Intn(2)]
				hs[[]string{"Host", "host", "HOST"}[rng.Intn(3)]] = wantHost
			}
			conf["http-headers"] = hs
		}
		switch rng.Intn(3) {
		case 0: // the host comes from the configuration file
			conf["host"] = host
			if rng.Intn(2) == 0 {
				av = append(av, "-host", stray)
			}
		default:
			av = append(av, "-host", host)
		}
		os.Remove(filepath.Join(home, ".hound"))
		if len(conf) > 0 || rng.Intn(4) == 0 {
			b, _ := json.Marshal(conf)
			must(os.WriteFile(filepath.Join(home, ".hound"), b, 0644))
		}
		unusable, usage := false, false
		if rng.Intn(14) == 0 { // a configuration that cannot be understood must not be passed over
			unusable = true
			must(os.WriteFile(filepath.Join(home, ".hound"), []byte([]string{"", "{", `{"host": 5}`, `{"http-headers": ["a"]}`, "host: x", `{"host": "` + host + `"`, `["` + host + `"]`, `{"http-headers": {"a": 1}}`}[rng.Intn(8)]), 0644))
			av = append(av, "-host", host)
		}
		if strings.HasPrefix(pat, "-") || rng.Intn(4) == 0 {
			av = append(av, "--")
		}
		av = append(av, pat)
		if rng.Intn(16) == 0 { // a query must be one argument
			usage = true
			if rng.Intn(3) == 0 {
				av = av[:len(av)-1]
			} else {
				av = append(av, pickS(rng, []string{"b", "", "-i", "*", host, pat}))
			}
		}

		// what the server will say
		status, broken, isErr, text := 200, false, false, ""
		rs := randRepos(rng, rng.Intn(3))
		body, _ := json.Marshal(map[string]interface{}{"Results": response(rs)})
		if stats {
			body, _ = json.Marshal(map[string]interface{}{"Results": response(rs), "Stats": map[string]int{"FilesOpened": 3, "Duration": 1}})
		}
		switch rng.Intn(10) {
		case 0:
			isErr = true
			text = []string{"error parsing regexp: missing closing ): `(?m)(`", "boom", "no such é <file>"}[rng.Intn(3)]
			body, _ = json.Marshal(map[string]string{"Error": text})
		case 1:
			status = []int{500, 404, 503, 403, 201, 204, 400}[rng.Intn(7)]
			if status == 204 {
				body = nil
			}
		case 2:
			broken = true
			body = [][]byte{[]byte("Hound is not ready.\n"), nil, []byte("[]"), body[:len(body)-1]}[rng.Intn(4)]
		}
		srv.mu.Lock()
		srv.searches, srv.all = nil, nil
		srv.search = func(w http.ResponseWriter) {
			w.Header().Set("Content-Type", "application/json;charset=utf-8")
			w.WriteHeader(status)
			w.Write(body)
		}
		srv.repos, _ = json.Marshal(repoMap(rs))
		if rng.Intn(20) == 0 {
			broken = true
			srv.repos = [][]byte{[]byte("Hound is not ready.\n"), {}, []byte("[]"), []byte(`{"Error": "boom"}`), srv.repos[:len(srv.repos)-1]}[rng.Intn(5)]
		}
		srv.mu.Unlock()

		tty := rng.Intn(3) == 0
		full := !tty && rng.Intn(8) == 0 // nothing can be written
		var out []byte
		cmd := exec.Command(bin, av...)
		cmd.Dir = home
		cmd.Env = []string{"HOME=" + home, "USER=somebody", "PATH=/usr/bin:/bin"}
		cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 54321, Gid: 54321}}
		var stderr strings.Builder
		cmd.Stderr = &stderr
		done := make(chan error, 1)
		if tty {
			var wait func() []byte
			var closeTTY func()
			cmd.Stdout, closeTTY, wait = openTTY()
			must(cmd.Start())
			closeTTY()
			go func() { done <- cmd.Wait() }()
			out = ansiRe.ReplaceAll(wait(), nil)
		} else {
			var sb strings.Builder
			cmd.Stdout = &sb
			if full {
				f, err := os.OpenFile("/dev/full", os.O_WRONLY, 0)
				must(err)
				defer f.Close()
				cmd.Stdout = f
			}
			must(cmd.Start())
			go func() { done <- cmd.Wait() }()
			select {
			case err := <-done:
				done <- err
			case <-time.After(60 * time.Second):
				die("the client does not end: %q", av)
			}
			out = []byte(sb.String())
		}
		err := <-done
		exit := 0
		if err != nil {
			exit = cmd.ProcessState.ExitCode()
		}
		srv.mu.Lock()
		sent := url.Values{}
		asked := len(srv.searches)
		if asked > 0 {
			sent = srv.searches[0].Form
		}
		hdr := []interface{}{}
		got := func(r *http.Request, k string) []string {
			if v := r.Header[http.CanonicalHeaderKey(k)]; v != nil {
				return v
			}
			return []string{}
		}
		for _, r := range srv.all {
			for k, v := range headers {
				hdr = append(hdr, map[string]interface{}{"name": k, "want": v, "got": got(r, k)})
			}
			if wantHost == "" {
				wantHost = host
			}
			hdr = append(hdr, map[string]interface{}{"name": "Host", "want": wantHost, "got": []string{r.Host}})
		}
		srv.mu.Unlock()
		par := map[string]interface{}{}
		for _, k := range []string{"q", "repos", "files", "ctx", "i", "literal", "rng", "excludeFiles"} {
			if v := sent[k]; v != nil {
				par[k] = v
			} else {
				par[k] = []string{}
			}
		}
		lines, ok := outLines(out)
		if len(lines) == 0 {
			ok = true
		}
		rec.put(map[string]interface{}{"id": fmt.Sprintf("a%d", i), "kind": "ask", "asked": asked, "sent": par, "headers": hdr,
			"arg":      map[string]interface{}{"pattern": pat, "repos": repos, "files": files, "ctx": fmt.Sprint(ctx), "icase": icase},
			"unusable": unusable, "usage": usage,
			"status": status, "broken": broken, "error": isErr, "exit": exit,
			"shown": isErr && (strings.Contains(stderr.String(), text) || strings.Contains(string(out), text)),
			"ok":    ok, "full": full, "out": lines, "res": reposJSON(rs), "ctx": ctx,
			"about": fmt.Sprintf("hound %q (tty %v, configuration %v): exit %d, output %.300q, errors %.200q", av, tty, conf, exit, out, stderr.String())})
	}
	hs.Close()
	rec.close()
}

func init() {
	commands["blocks"] = cmdBlocks
	commands["cli"] = cmdCLI
}
