package main

// The server of the daemon while it becomes ready, and what it discloses.

import (
	"bytes"
	"crypto/sha1"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/web"
)

// wtrace records what clients see of one daemon.
type wtrace struct {
	mu     sync.Mutex
	ev     []map[string]interface{}
	n      int
	health string
	repos  string // canonical names, once ready
}

func (t *wtrace) put(e map[string]interface{}) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.ev = append(t.ev, e)
}

var webPaths = []string{"/", "/", "/open_search.xml", "/excluded_files.html", "/api/v1/repos", "/api/v1/repos", "/api/v1/search", "/api/v1/excludes",
	"/api/v1/update", "/api/v1/github-webhook", "/css/hound.css", "/js/hound.js", "/nowhere", "/healthz/", "/healthz2", "/health", "/HEALTHZ",
	"/favicon.ico", "/robots.txt", "/metrics", "/status", "/api", "/api/v2/search", "/index.txt", "/ready", "/debug/pprof/"}

// classify says who answered a request.
func (t *wtrace) classify(path string, status int, ctype string, body []byte) string {
	if path == t.health && status == 200 {
		return "health"
	}
	switch {
	case status == 503:
		return "notready"
	case strings.HasPrefix(path, "/api/v1/"):
		if !json.Valid(body) {
			return "not JSON"
		}
		if path == "/api/v1/repos" {
			var m map[string]interface{}
			if json.Unmarshal(body, &m) != nil {
				return "not an object"
			}
			var ns []string
			for n := range m {
				ns = append(ns, n)
			}
			sort.Strings(ns)
			if got := strings.Join(ns, ","); got != t.repos {
				return "repositories " + got
			}
		}
		if status == 200 || status == 404 && path == "/api/v1/excludes" || status >= 400 && status < 500 && (path == "/api/v1/update" || path == "/api/v1/github-webhook") {
			return "api"
		}
	case status == 200 && (path == "/" || path == "/excluded_files.html"):
		if bytes.Contains(body, []byte("<html")) && bytes.Contains(body, []byte("</html>")) {
			return "page"
		}
	case status == 200 && path == "/open_search.xml":
		if bytes.Contains(body, []byte("</OpenSearchDescription>")) {
			return "page"
		}
	case status == 200 && len(body) > 0 && (strings.HasPrefix(path, "/css/") || strings.HasPrefix(path, "/js/") || path == "/favicon.ico"):
		return "asset"
	case status == 404:
		return "nothing"
	}
	return fmt.Sprintf("status %d", status)
}

// ask makes one request, by do.
func (t *wtrace) ask(path string, do func() (int, string, []byte, bool)) string {
	t.mu.Lock()
	t.n++
	id := t.n
	t.ev = append(t.ev, map[string]interface{}{"e": "call", "id": id, "path": path})
	t.mu.Unlock()
	status, ctype, body, ok := do()
	got := "no answer"
	if ok {
		got = t.classify(path, status, ctype, body)
	}
	t.put(map[string]interface{}{"e": "ret", "id": id, "got": got, "path": path})
	return got
}

func direct(h http.Handler, method, path string) (status int, ctype string, body []byte, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	w := httptest.NewRecorder()
	h.ServeHTTP(w, httptest.NewRequest(method, path, nil))
	return w.Code, w.Header().Get("Content-Type"), w.Body.Bytes(), true
}

var healthPaths = []string{"/healthz", "/healthz", "/up", "/", "/api/v1/search", "/healthz/", "/a/b/c", "/é", "/nowhere", "/api/v1/repos", "ready", "/css/hound.css", "/open_search.xml"}

func cmdWeb(args []string) {
	rec := newRecorder("recs.ndjson")
	rng := newRand(24)
	names := []string{"one", "two"}
	e := &searchEnv{orbits: orbitSet{}}
	w := e.newWorld(rng, names, func(i int) ([]*vfile, map[string][]byte) { return apiCorpus(rng, i), nil }, func(int) bool { return true }, 100)
	defer w.close()
	n := pick(250, 2500)
	for i := 0; i < n; i++ {
		stop := schedStart(seed*7919+int64(i), 1+rng.Intn([]int{6, 40}[i%2]), time.Duration(1+rng.Intn(4))*time.Millisecond, 2*time.Millisecond)
		t := &wtrace{health: healthPaths[rng.Intn(len(healthPaths))]}
		idx := w.ss
		c := &config.Config{HealthCheckURI: t.health, Repos: map[string]*config.Repo{}, ResultLimit: 100, Title: "T"}
		if rng.Intn(5) == 0 {
			idx = map[string]*searcher.Searcher{"one": w.ss["one"]}
		}
		var ns []string
		for k := range idx {
			ns = append(ns, k)
			c.Repos[k] = idx[k].Repo
		}
		sort.Strings(ns)
		t.repos = strings.Join(ns, ",")
		dev := rng.Intn(6) == 0
		s := web.Start(c, "127.0.0.1:0", dev)
		pathOf := func(r *rand.Rand) string {
			if r.Intn(4) == 0 && strings.HasPrefix(t.health, "/") && t.health != "/é" {
				return t.health
			}
			return webPaths[r.Intn(len(webPaths))]
		}
		var wg sync.WaitGroup
		k := 1 + rng.Intn(4)
		served := make(chan bool)
		for j := 0; j < k; j++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				for q := 1 + r.Intn(5); q > 0; q-- {
					if r.Intn(3) > 0 {
						time.Sleep(time.Duration(r.Intn(2500)) * time.Microsecond)
					}
					if r.Intn(8) == 0 {
						<-served
					}
					p := pathOf(r)
					t.ask(p, func() (int, string, []byte, bool) {
						return direct(s, []string{"GET", "GET", "POST", "HEAD"}[r.Intn(3)], (&url.URL{Path: p, RawQuery: []string{"", "q=hit&repos=*", "repo=one"}[r.Intn(3)]}).String())
					})
				}
			}()
		}
		work := 1
		time.Sleep(time.Duration(rng.Intn(2500)) * time.Microsecond)
		t.put(map[string]interface{}{"e": "processed"})
		go s.ServeWithIndex(idx)
		close(served)
		wg.Wait()
		parts := []string{}
		for _, p := range []string{"/", "/api/v1/repos", "/api/v1/github-webhook", "/api/v1/excludes"} {
			if p != t.health {
				parts = append(parts, p)
			}
		}
		for end := time.Now().Add(20 * time.Second); time.Now().Before(end); {
			p := parts[rng.Intn(len(parts))]
			if g := t.ask(p, func() (int, string, []byte, bool) { return direct(s, "GET", p) }); g != "notready" {
				for _, p := range parts {
					t.ask(p, func() (int, string, []byte, bool) { return direct(s, "GET", p) })
				}
				break
			}
			switch { // at first as often as possible, not to miss anything half ready
			case t.n > 160:
				time.Sleep(time.Second)
			case t.n > 100:
				time.Sleep(4 * time.Millisecond)
			default:
				time.Sleep(150 * time.Microsecond)
			}
		}
		t.put(map[string]interface{}{"e": "ready"})
		for q := 0; q < 3; q++ {
			p := pathOf(rng)
			t.ask(p, func() (int, string, []byte, bool) { return direct(s, "GET", (&url.URL{Path: p}).String()) })
		}
		stop()
		rec.put(map[string]interface{}{"id": fmt.Sprintf("w%d", i), "health": t.health, "work": work, "ev": t.ev, "cfg": fmt.Sprintf("health %q dev %v", t.health, dev)})
	}
	rec.close()
}

// ---------------------------------------------------------------- the real daemon

const gitWrapper = `#!/bin/sh
# holds clones back until the gate named after the url is there
for a in "$@"; do u="$a"; [ "$1" = clone ] && case "$a" in file://*) g="$GATES/$(basename "$a")"; touch "$g.waiting"; while [ ! -e "$g" ]; do sleep 0.01; done;; esac; done
[ "$1" = fetch ] && [ -e "$GATES/hold" ] && { touch "$GATES/held.$(basename "$PWD")"; while [ -e "$GATES/hold" ]; do sleep 0.01; done; }
[ "$1" = fetch ] && echo "$PWD" >> "$GATES/fetches"
[ "$1" = fetch ] && [ -e "$GATES/holdone" ] && mkdir "$GATES/holder" 2> /dev/null && while [ -e "$GATES/holdone" ]; do sleep 0.01; done
exec /usr/bin/git "$@"
`

var portMu sync.Mutex
var nextPort = 20000 + os.Getpid()%11000

// freePort gives a port that connections do not use by themselves.
func freePort() string {
	portMu.Lock()
	defer portMu.Unlock()
	for {
		if nextPort++; nextPort > 32000 {
			nextPort = 20000
		}
		a := fmt.Sprintf("127.0.0.1:%d", nextPort)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
}

func git(dir string, args ...string) string {
	c := exec.Command("git", args...)
	c.Dir = dir
	c.Env = append(os.Environ(), "GIT_CONFIG_GLOBAL=/dev/null", "GIT_CONFIG_SYSTEM=/dev/null", "GIT_AUTHOR_NAME=a", "GIT_AUTHOR_EMAIL=a@b", "GIT_COMMITTER_NAME=a", "GIT_COMMITTER_EMAIL=a@b",
		"GIT_TERMINAL_PROMPT=0")
	b, err := c.CombinedOutput()
	if err != nil {
		die("git %v in %s: %v\n%s", args, dir, err, b)
	}
	return strings.TrimSpace(string(b))
}

// simpleGit makes a repository with one commit on master.
func simpleGit(dir string, files map[string]string) {
	must(os.MkdirAll(dir, 0755))
	git(dir, "init", "-q", "-b", "master")
	for n, s := range files {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755))
		must(os.WriteFile(filepath.Join(dir, n), []byte(s), 0644))
	}
	git(dir, "add", "-A")
	git(dir, "commit", "-q", "--allow-empty", "-m", "x")
}

// cmdDaemon runs the real houndd over gated git repositories.
func cmdDaemon(args []string) {
	houndd := args[0]
	rec := newRecorder("recs.ndjson")
	rng := newRand(241)
	dir, err := os.MkdirTemp(outDir, "d")
	must(err)
	bin := filepath.Join(dir, "bin")
	must(os.MkdirAll(bin, 0755))
	must(os.WriteFile(filepath.Join(bin, "git"), []byte(gitWrapper), 0755))
	nrem := 3
	for k := 0; k < nrem; k++ {
		simpleGit(filepath.Join(dir, fmt.Sprintf("remote%d", k)), map[string]string{"a.txt": fmt.Sprintf("hit %d\n", k)})
	}
	n := pick(24, 160)
	type result struct {
		i int
		r map[string]interface{}
	}
	seeds := make([]int64, n)
	for i := range seeds {
		seeds[i] = rng.Int63()
	}
	parallel(n, 8, func(i int) {
		r := rand.New(rand.NewSource(seeds[i]))
		rec.put(daemonRun(r, i, dir, houndd, bin, nrem))
	})
	rec.close()
}

func daemonRun(rng *rand.Rand, i int, dir, houndd, bin string, nrem int) map[string]interface{} {
	home := filepath.Join(dir, fmt.Sprintf("run%d", i))
	gates := filepath.Join(home, "gates")
	must(os.MkdirAll(gates, 0755))
	t := &wtrace{health: healthPaths[rng.Intn(len(healthPaths))]}
	if !strings.HasPrefix(t.health, "/") || t.health == "/é" {
		t.health = "/healthz"
	}
	repos := map[string]interface{}{}
	var gated, ok, push []string
	fast := rng.Intn(3) == 0 // all of them are updated all the time
	for k := 0; k < nrem; k++ {
		if rng.Intn(4) == 0 && k > 0 {
			continue
		}
		name := fmt.Sprintf("repo%d", k)
		remote := fmt.Sprintf("remote%d", k)
		what := rng.Intn(5)
		if what == 0 { // one that cannot be fetched
			remote = fmt.Sprintf("missing%d", k)
		} else if what == 1 { // one that cannot even be tried
			repos[name] = map[string]interface{}{"url": "x", "vcs": "nosuch"}
			continue
		} else {
			ok = append(ok, name)
		}
		rc := map[string]interface{}{"url": "file://" + filepath.Join(dir, remote)}
		if rng.Intn(3) > 0 {
			rc["enable-push-updates"] = true
			if what > 1 {
				push = append(push, name)
			}
			if rng.Intn(2) == 0 {
				rc["enable-poll-updates"] = false
			}
		}
		if fast {
			rc["enable-poll-updates"], rc["ms-between-poll"] = true, 60
		}
		repos[name] = rc
		gated = append(gated, remote)
	}
	sort.Strings(ok)
	t.repos = strings.Join(ok, ",")
	cfg := map[string]interface{}{"dbpath": "data", "max-concurrent-indexers": 5, "health-check-uri": t.health, "repos": repos}
	if t.health == "/healthz" && rng.Intn(2) == 0 {
		delete(cfg, "health-check-uri")
	}
	b, err := json.Marshal(cfg)
	must(err)
	must(os.WriteFile(filepath.Join(home, "config.json"), b, 0644))
	addr := freePort()
	cmd := exec.Command(houndd, "-conf", filepath.Join(home, "config.json"), "-addr", addr)
	cmd.Dir = home
	cmd.Env = append(os.Environ(), "PATH="+bin+":"+os.Getenv("PATH"), "GATES="+gates, "HOME="+home, "GIT_CONFIG_GLOBAL=/dev/null")
	var out lockedBuffer
	cmd.Stdout, cmd.Stderr = &out, &out
	must(cmd.Start())
	exited := make(chan error, 1)
	go func() { exited <- cmd.Wait() }()
	cl := &http.Client{Timeout: 20 * time.Second, Transport: &http.Transport{DisableKeepAlives: true}}
	do := func(p string) func() (int, string, []byte, bool) {
		return func() (int, string, []byte, bool) {
			rs, err := cl.Get("http://" + addr + p)
			if err != nil {
				return 0, "", nil, false
			}
			defer rs.Body.Close()
			b, err := io.ReadAll(rs.Body)
			return rs.StatusCode, rs.Header.Get("Content-Type"), b, err == nil
		}
	}
	// until it listens, connections are refused
	for k := 0; ; k++ {
		if c, err := net.DialTimeout("tcp", addr, time.Second); err == nil {
			c.Close()
			break
		}
		if k > 3000 {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	// everything that can be tried is being tried before the gates are opened
	for k := 0; k < 3000; k++ {
		ws, _ := filepath.Glob(gates + "/*.waiting")
		if len(ws) == len(gated) {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	ask := func(k int) {
		for ; k > 0; k-- {
			p := webPaths[rng.Intn(len(webPaths))]
			if rng.Intn(3) == 0 {
				p = t.health
			}
			t.ask(p, do(p))
		}
	}
	signalAt := rng.Intn(2 * (len(gated) + 2))
	signalled := false
	term := func() {
		select {
		case err := <-exited:
			t.put(map[string]interface{}{"e": "exit", "status": fmt.Sprintf("by itself: %v", err)})
			exited <- err
		default:
		}
		t.put(map[string]interface{}{"e": "term"})
		cmd.Process.Signal(syscall.SIGTERM)
		signalled = true
	}
	sig := func(at int) {
		if at == signalAt {
			term()
		}
	}
	work := len(gated)
	for k, g := range gated {
		ask(2 + rng.Intn(2))
		sig(k)
		if signalled { // it must stay for now
			time.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
			ask(2)
		}
		t.put(map[string]interface{}{"e": "processed"})
		if !signalled || k < len(gated)-1 {
			// answers now overlap the rest of the start
			must(os.WriteFile(filepath.Join(gates, g), nil, 0644))
			time.Sleep(time.Duration(rng.Intn(50)) * time.Millisecond)
		} else {
			must(os.WriteFile(filepath.Join(gates, g), nil, 0644))
		}
	}
	if !signalled {
		p := "/"
		if t.health == "/" {
			p = "/api/v1/repos"
		}
		for k := 0; k < 60; k++ {
			if g := t.ask(p, do(p)); g != "notready" {
				break
			}
			time.Sleep(time.Duration(10+k*10) * time.Millisecond)
		}
		t.put(map[string]interface{}{"e": "ready"})
		ask(3)
		fetches := func() int {
			b, _ := os.ReadFile(filepath.Join(gates, "fetches"))
			return bytes.Count(b, []byte{'\n'})
		}
		if fast && len(ok) > 1 { // one is in the middle of an update, and the others go on being updated
			must(os.WriteFile(filepath.Join(gates, "holdone"), nil, 0644))
			n := fetches()
			for q := 0; q < 1000 && fetches() < n+6; q++ {
				time.Sleep(5 * time.Millisecond)
			}
			if fetches() >= n+6 {
				t.put(map[string]interface{}{"e": "begin"})
				term()
				time.Sleep(2 * time.Second)
				t.put(map[string]interface{}{"e": "notice"})
				n = fetches()
				time.Sleep(1200 * time.Millisecond)
				if fetches() >= n+4 {
					t.put(map[string]interface{}{"e": "begin"})
				}
				select {
				case err := <-exited:
					t.put(map[string]interface{}{"e": "exit", "status": fmt.Sprintf("during an update: %v", err)})
					exited <- err
				default:
				}
				ask(1)
				t.put(map[string]interface{}{"e": "end"})
			}
			must(os.Remove(filepath.Join(gates, "holdone")))
		} else if len(push) > 0 && rng.Intn(4) > 0 { // it ends in the middle of an update
			must(os.WriteFile(filepath.Join(gates, "hold"), nil, 0644))
			k := 1 + rng.Intn(len(push))
			for _, x := range rng.Perm(len(push))[:k] {
				rs, err := cl.PostForm("http://"+addr+"/api/v1/update", url.Values{"repos": {push[x]}})
				if err != nil || rs.StatusCode != 200 {
					k--
				}
				if err == nil {
					rs.Body.Close()
				}
			}
			for q := 0; q < 1000 && k > 0; q++ {
				if ws, _ := filepath.Glob(gates + "/held.*"); len(ws) >= k {
					break
				}
				time.Sleep(5 * time.Millisecond)
			}
			if ws, _ := filepath.Glob(gates + "/held.*"); len(ws) > 0 {
				t.put(map[string]interface{}{"e": "begin"})
				term()
				select {
				case err := <-exited:
					t.put(map[string]interface{}{"e": "exit", "status": fmt.Sprintf("during an update: %v", err)})
					exited <- err
				case <-time.After(time.Duration(50+rng.Intn(300)) * time.Millisecond):
				}
				ask(1)
				t.put(map[string]interface{}{"e": "end"})
			}
			must(os.Remove(filepath.Join(gates, "hold")))
		}
		if !signalled {
			term()
		}
	}
	status := "never"
	select {
	case err := <-exited:
		status = "0"
		if err != nil {
			status = err.Error()
		}
	case <-time.After(30 * time.Second):
		cmd.Process.Signal(syscall.SIGKILL)
		<-exited
	}
	if status == "0" { // every repository has one complete index, and there is nothing else
		ds, _ := filepath.Glob(filepath.Join(home, "data", "idx-*"))
		for _, d := range ds {
			if _, err := index.Read(d); err != nil {
				status = "0, but " + filepath.Base(d) + " is not complete"
			}
		}
		if len(ds) != len(ok) {
			status = fmt.Sprintf("0, but there are %d indexes for %d repositories", len(ds), len(ok))
		}
	}
	t.put(map[string]interface{}{"e": "exit", "status": status})
	tail := out.String()
	if len(tail) > 1500 {
		tail = tail[len(tail)-1500:]
	}
	for k := 0; os.RemoveAll(home) != nil && k < 100; k++ { // a child that outlived it may still be writing
		time.Sleep(20 * time.Millisecond)
	}
	return map[string]interface{}{"id": fmt.Sprintf("d%d", i), "health": t.health, "work": work, "ev": t.ev, "cfg": string(b) + " output: " + tail}
}

type lockedBuffer struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuffer) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.Write(p)
}

func (l *lockedBuffer) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}

// ---------------------------------------------------------------- disclosure

var durations = regexp.MustCompile(`"Duration":\d+`)
var notEnabled = regexp.MustCompile(`for repository [^"]*`)

// secret tokens and what they could look like
type secrets struct {
	rng  *rand.Rand
	toks []string
}

func (s *secrets) token() string {
	const al = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	var b strings.Builder
	for i := 0; i < 12; i++ {
		b.WriteByte(al[s.rng.Intn(len(al))])
	}
	s.toks = append(s.toks, b.String())
	return b.String()
}

func (s *secrets) value() interface{} {
	t := s.token()
	switch s.rng.Intn(7) {
	case 0:
		return "<" + t + "&\">"
	case 1:
		return []interface{}{t, map[string]interface{}{t + "k": t}}
	case 2:
		return map[string]interface{}{"key": t, t: 1}
	case 3:
		n := 100000000000 + s.rng.Int63n(900000000000)
		s.toks = append(s.toks, fmt.Sprint(n))
		return n
	case 4:
		return "é " + t + "\n"
	}
	return t
}

func (s *secrets) leaked(b []byte) string {
	for _, t := range s.toks {
		forms := []string{t, hex.EncodeToString([]byte(t)), url.QueryEscape(t)}
		for k := 0; k < 3; k++ {
			e := base64.StdEncoding.EncodeToString([]byte(strings.Repeat("x", k) + t))
			if e = strings.TrimRight(e, "="); len(e) > 12 {
				forms = append(forms, e[4:len(e)-2])
			}
		}
		for _, f := range forms {
			if bytes.Contains(b, []byte(f)) {
				return t
			}
		}
	}
	return ""
}

func digest(b []byte) string {
	h := sha1.Sum(b)
	return hex.EncodeToString(h[:])
}

// dserver is one server about disclosure.
type dserver struct {
	c    *config.Config
	ss   map[string]*searcher.Searcher
	s    *web.Server
	h    *httptest.Server
	dir  string
	fail []string
}

func startDserver(obj map[string]interface{}, dev bool, n string) *dserver {
	d := &dserver{}
	var err error
	d.dir, err = os.MkdirTemp(outDir, "disc")
	must(err)
	obj["dbpath"] = filepath.Join(d.dir, "db")
	must(os.Mkdir(filepath.Join(d.dir, "db"), 0755))
	b, err := json.Marshal(obj)
	must(err)
	must(os.WriteFile(filepath.Join(d.dir, "c.json"), b, 0644))
	d.c = &config.Config{}
	sut(d.c.LoadFromFile(filepath.Join(d.dir, "c.json")), "loading %s", b)
	d.s = web.Start(d.c, "127.0.0.1:0", dev)
	d.h = httptest.NewServer(d.s)
	return d
}

func (d *dserver) serve() {
	ss, errs, err := searcher.MakeAll(d.c)
	sut(err, "setting up searchers")
	for n := range errs { // as the daemon does
		delete(d.c.Repos, n)
	}
	d.ss = ss
	go d.s.ServeWithIndex(ss)
	for k := 0; k < 2000; k++ {
		p := "/nowhere"
		if st, _, _, _ := direct(d.s, "GET", p); st != 503 {
			return
		}
		time.Sleep(5 * time.Millisecond)
	}
}

func (d *dserver) close() {
	d.h.Close()
	for _, s := range d.ss {
		s.Stop()
	}
	for _, s := range d.ss {
		s.Wait()
	}
	must(os.RemoveAll(d.dir))
}

func (d *dserver) ask(rng *rand.Rand, q *areq) (status int, head, body []byte) {
	rq, err := http.NewRequest(q.method, d.h.URL+q.path+"?"+encodeKVs(rng, q.query), bytes.NewReader(q.raw))
	must(err)
	rq.Host = "hound.example"
	cl := &http.Client{Timeout: 30 * time.Second, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}
	rs, err := cl.Do(rq)
	if err != nil {
		return -1, nil, []byte(strings.ReplaceAll(err.Error(), d.h.URL, ""))
	}
	defer rs.Body.Close()
	body, err = io.ReadAll(rs.Body)
	if err != nil {
		return -1, nil, []byte(err.Error())
	}
	var h bytes.Buffer
	rs.Header.Del("Date")
	rs.Header.Del("Content-Length")
	rs.Header.Write(&h)
	if q.path == "/api/v1/update" && len(q.query) > 0 && q.query[0][1] == "*" && rs.StatusCode == 403 {
		body = notEnabled.ReplaceAll(body, nil) // it names any of those it is true of
	}
	return rs.StatusCode, h.Bytes(), durations.ReplaceAll(body, []byte(`"Duration":0`))
}

var modelData = regexp.MustCompile(`var ModelData = ("(?:[^"\\]|\\.)*");`)

// jsString decodes a JavaScript string literal as the templates write it.
func jsString(b []byte) (string, bool) {
	s := string(b)
	s = strings.NewReplacer(`\'`, `'`, "\\\n", "").Replace(s)
	s = regexp.MustCompile(`\\x([0-9a-fA-F]{2})`).ReplaceAllString(s, `\u00$1`)
	var out string
	err := json.Unmarshal([]byte(s), &out)
	return out, err == nil
}

// view is what a client learns of the repositories' configurations.
func view(b []byte) (interface{}, bool) {
	var m map[string]map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return nil, false
	}
	out := []interface{}{}
	for n, r := range m {
		v := map[string]interface{}{}
		for _, k := range [][2]string{{"url", "url"}, {"display", "display-name"}, {"ms", "ms-between-poll"}, {"vcs", "vcs"}, {"dot", "exclude-dot-files"},
			{"poll", "enable-poll-updates"}, {"push", "enable-push-updates"}, {"auto", "auto-generated-files"}} {
			v[k[0]] = text(r[k[1]])
		}
		if v["auto"] == "null" {
			v["auto"] = "[]"
		}
		p, _ := r["url-pattern"].(map[string]interface{})
		v["base"], v["anchor"] = text(p["base-url"]), text(p["anchor"])
		conf := "none"
		if c, ok := r["vcs-config"]; ok {
			conf = text(c)
		}
		out = append(out, map[string]interface{}{"name": n, "view": v, "conf": conf})
	}
	return out, true
}

// stripIn is the configuration as the specification is told of it, without its secrets.
func stripIn(in map[string]interface{}) string {
	b, err := json.Marshal(in)
	must(err)
	var v map[string]interface{}
	must(json.Unmarshal(b, &v))
	v["global"] = nil
	for _, r := range v["repos"].([]interface{}) {
		r.(map[string]interface{})["conf"] = nil
	}
	v["dbpath"] = nil
	return text(v)
}

func cmdSecrets(args []string) {
	rec := newRecorder("recs.ndjson")
	master := newRand(22)
	for i := 0; i < pick(60, 700); i++ {
		sd := master.Int63()
		nrepo := master.Intn(5)
		names, urls := []string{}, []string{}
		for k := 0; k < nrepo; k++ {
			names = append(names, []string{"one", "org/two", "é", "x y", "</script><b>"}[k])
			r := rand.New(rand.NewSource(sd + int64(k)))
			staticForm = []string{"static://%d", "https://host.example/r%d.git", "http://host:81/%d", "file:///r/%d", "svn+ssh://a.b/%d", "git@host:a/%d.git"}[master.Intn(6)]
			u, st := newStatic(apiCorpus(r, k), map[string][]byte{"bin": {0, 1, 2}})
			st.fail = master.Intn(6) == 0
			urls = append(urls, u)
		}
		dev := master.Intn(5) == 0
		// both are made with one random sequence, apart from the secrets
		sec := [2]*secrets{{rng: rand.New(rand.NewSource(sd + 100))}, {rng: rand.New(rand.NewSource(sd + 200))}}
		base := func() (*confCase, *confOpts) {
			co := &confOpts{names: names, urls: func(k int) string { return urls[k] }, vcs: []string{"static", "static2"}, noconf: true}
			return co.generate(rand.New(rand.NewSource(sd)), []string{"x"}), co
		}
		var cs [2]*confCase
		for x := 0; x < 2; x++ {
			c, co := base()
			co.noconf = false
			co.secret = sec[x].value
			co.addSecrets(sec[x].rng, rand.New(rand.NewSource(sd+300)), c)
			cs[x] = c
		}
		if stripIn(cs[0].in) != stripIn(cs[1].in) {
			die("the configurations differ:\n%s\n%s", stripIn(cs[0].in), stripIn(cs[1].in))
		}
		var ds [2]*dserver
		for x := 0; x < 2; x++ {
			ds[x] = startDserver(cs[x].obj, dev, fmt.Sprint(i, x))
		}
		var qs []*areq
		for _, p := range append(append([]string{}, webPaths...), "/api/v1/", "/index.html", "/js/", "/css/nothing.css", "/debug/vars", "/debug/pprof/", "/config.json", "/ui", "/api/v1/config") {
			qs = append(qs, &areq{method: "GET", path: p}, &areq{method: "POST", path: p})
		}
		for _, n := range append(names, "nosuch", "*") {
			qs = append(qs, &areq{method: "GET", path: "/api/v1/excludes", query: []kv{{"repo", n}}},
				&areq{method: "POST", path: "/api/v1/update", query: []kv{{"repos", n}}},
				&areq{method: "GET", path: "/api/v1/update", query: []kv{{"repos", n}}},
				&areq{method: "POST", path: "/api/v1/github-webhook", raw: []byte(text(map[string]interface{}{"repository": map[string]string{"full_name": n}}))})
			for _, pat := range []string{"hit", ".", "", "(", "[^\n]*"} {
				qs = append(qs, &areq{method: "GET", path: "/api/v1/search", query: []kv{{"repos", n}, {"q", pat}, {"stats", "1"}, {"ctx", "20"}, {"rng", ":"}}})
			}
			qs = append(qs, &areq{method: "GET", path: "/api/v1/search", query: []kv{{"repos", n}, {"q", "hit"}, {"files", "("}}},
				&areq{method: "GET", path: "/api/v1/search", query: []kv{{"repos", n}, {"q", ".*"}, {"files", "static|secret|conf"}}})
		}
		answers := []interface{}{}
		views := [][]interface{}{{}, {}}
		round := func(when string) {
			for k, q := range qs {
				var st [2]int
				var hd, bd [2][]byte
				leak := [2]string{}
				for x := 0; x < 2; x++ {
					st[x], hd[x], bd[x] = ds[x].ask(rand.New(rand.NewSource(int64(k))), q)
					leak[x] = sec[x].leaked(append(append([]byte{}, hd[x]...), bd[x]...))
					if when == "ready" && q.method == "GET" && st[x] == 200 && len(q.query) == 0 && q.path != ds[x].c.HealthCheckURI {
						if q.path == "/api/v1/repos" {
							v, ok := view(bd[x])
							if !ok {
								v = "not a list of repositories"
							}
							views[x] = append(views[x], v)
						} else if q.path == "/" {
							var v interface{} = "not a list of repositories"
							if m := modelData.FindSubmatch(bd[x]); m != nil {
								if s, ok := jsString(m[1]); ok {
									if w, ok := view([]byte(s)); ok {
										v = w
									}
								}
							}
							views[x] = append(views[x], v)
						}
					}
				}
				answers = append(answers, map[string]interface{}{"what": fmt.Sprintf("%s %s %s %v", when, q.method, q.path, q.query), "status": st,
					"head": []string{digest(hd[0]), digest(hd[1])}, "body": []string{digest(bd[0]), digest(bd[1])}, "leak": leak})
			}
		}
		round("starting")
		live := []string{}
		for x := 0; x < 2; x++ {
			ds[x].serve()
		}
		for k, n := range names {
			if !statics[urls[k]].fail {
				live = append(live, n)
			}
		}
		round("ready")
		var confs []string
		for x := 0; x < 2; x++ {
			b, _ := json.Marshal(cs[x].obj)
			confs = append(confs, string(b))
			ds[x].close()
		}
		rec.put(map[string]interface{}{"id": fmt.Sprintf("s%d", i), "ins": []interface{}{cs[0].in, cs[1].in}, "live": live, "answers": answers, "views": views,
			"about": fmt.Sprintf("configurations %s and %s (dev %v)", confs[0], confs[1], dev)})
	}
	rec.close()
}

func init() {
	commands["web"] = cmdWeb
	commands["daemon"] = cmdDaemon
	commands["secrets"] = cmdSecrets
}
