package main

// Requests to the real HTTP handlers over real searchers.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"mime/multipart"
	"net"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/api"
	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
)

// static repositories have a tree that never changes
type staticRepo struct {
	mu    sync.Mutex
	files []*vfile
	raw   map[string][]byte // other files
	pulls int
	rev   string
	fail  bool
	gate  chan bool // if there, cloning waits for it
}

var (
	staticMu sync.Mutex
	statics  = map[string]*staticRepo{} // by url
)

type staticDriver struct{}

func init() {
	f := func(b []byte) (vcs.Driver, error) {
		var c struct {
			Bad bool `json:"bad"`
		}
		if len(b) > 0 {
			if err := json.Unmarshal(b, &c); err != nil {
				return nil, err
			}
		}
		if c.Bad {
			return nil, errors.New("misconfigured")
		}
		return &staticDriver{}, nil
	}
	vcs.Register(f, "static", "static2")
}

var noStatic = &staticRepo{fail: true}

func staticOf(url string) *staticRepo {
	staticMu.Lock()
	defer staticMu.Unlock()
	if s := statics[url]; s != nil {
		return s
	}
	return noStatic
}

func (d *staticDriver) Clone(dir, url string) (string, error) {
	s := staticOf(url)
	if s.gate != nil {
		<-s.gate
	}
	if s.fail {
		return "", errors.New("cannot be cloned")
	}
	must(os.MkdirAll(dir, 0755))
	must(os.WriteFile(filepath.Join(dir, ".static"), []byte(url), 0644))
	writeTree(dir, s.files)
	for n, b := range s.raw {
		must(os.MkdirAll(filepath.Dir(filepath.Join(dir, n)), 0755))
		must(os.WriteFile(filepath.Join(dir, n), b, 0644))
	}
	return s.rev, nil
}

func (d *staticDriver) Pull(dir string) (string, error) {
	b, err := os.ReadFile(filepath.Join(dir, ".static"))
	if err != nil {
		return "", err
	}
	s := staticOf(string(b))
	s.mu.Lock()
	s.pulls++
	s.mu.Unlock()
	return s.rev, nil
}

func (d *staticDriver) HeadRev(dir string) (string, error)     { return "", errors.New("not here") }
func (d *staticDriver) SpecialFiles() []string                 { return []string{".static"} }
func (d *staticDriver) AutoGeneratedFiles(dir string) []string { return nil }

// arepo is a repository of an API scenario.
type arepo struct {
	name   string
	push   bool
	st     *staticRepo
	corpus int
	order  map[string]int
	broken bool
	excl   []string
}

type aworld struct {
	dir   string
	repos []*arepo
	srv   *http.Server
	addr  string
	ss    map[string]*searcher.Searcher
	limit int
	cl    *http.Client
	late  map[string]time.Time // when a request was made that can cause one fetch more than was seen
}

var staticN int
var staticForm = "static://%d"

func newStatic(files []*vfile, raw map[string][]byte) (string, *staticRepo) {
	staticMu.Lock()
	defer staticMu.Unlock()
	staticN++
	u := fmt.Sprintf(staticForm, staticN)
	s := &staticRepo{files: files, raw: raw, rev: fmt.Sprintf("revision-%d-%d", staticN, seed)}
	statics[u] = s
	return u, s
}

// indexOrder finds the order of an index's files.
func (e *searchEnv) indexOrder(files []*vfile, dir string) (int, map[string]int) {
	ci := cindex.Open(filepath.Join(dir, "tri"))
	defer ci.Close()
	byName := map[string]*vfile{}
	for _, f := range files {
		byName[f.name] = f
	}
	var ordered []*vfile
	done := map[string]bool{}
	for _, id := range ci.PostingQuery(&cindex.Query{Op: cindex.QAll}) {
		if n := ci.Name(id); byName[n] != nil && !done[n] {
			done[n] = true
			ordered = append(ordered, byName[n])
		}
	}
	for _, f := range files {
		if !done[f.name] {
			ordered = append(ordered, f)
		}
	}
	e.corpora = append(e.corpora, ordered)
	order := map[string]int{}
	for i, f := range ordered {
		order[f.name] = i + 1
		for _, s := range f.segs {
			e.orbits.addText(s.l)
		}
	}
	return len(e.corpora), order
}

func (e *searchEnv) newWorld(rng *rand.Rand, names []string, files func(i int) ([]*vfile, map[string][]byte), push func(i int) bool, limit int) *aworld {
	dir, err := os.MkdirTemp(outDir, "api")
	must(err)
	w := &aworld{dir: dir, limit: limit, late: map[string]time.Time{}, cl: &http.Client{Timeout: 30 * time.Second,
		Transport: &http.Transport{MaxIdleConnsPerHost: 8}, CheckRedirect: func(*http.Request, []*http.Request) error { return http.ErrUseLastResponse }}}
	c := &config.Config{DbPath: dir, MaxConcurrentIndexers: 4, Repos: map[string]*config.Repo{}, ResultLimit: limit}
	byURL := map[string]*arepo{}
	for i, n := range names {
		fs, raw := files(i)
		u, st := newStatic(fs, raw)
		p := push(i)
		// one that cannot be pushed to is polled, but not while we are watching
		poll := !p || rng.Intn(2) == 0
		c.Repos[n] = &config.Repo{Url: u, Vcs: "static", MsBetweenPolls: 3600000, EnablePushUpdates: &p, EnablePollUpdates: &poll, UrlPattern: &config.UrlPattern{}}
		r := &arepo{name: n, push: p, st: st}
		for x := range raw {
			r.excl = append(r.excl, x)
		}
		w.repos = append(w.repos, r)
		byURL[u] = r
	}
	ss, errs, err := searcher.MakeAll(c)
	sut(err, "setting up searchers")
	for n, err := range errs {
		sut(err, "setting up the searcher of %s", n)
	}
	w.ss = ss
	ents, err := filepath.Glob(filepath.Join(dir, "idx-*"))
	must(err)
	for _, x := range ents {
		ref, err := index.Read(x)
		sut(err, "reading an index's manifest")
		r := byURL[ref.Url]
		r.corpus, r.order = e.indexOrder(r.st.files, x)
	}
	if len(ents) != len(names) {
		die("%d index directories for %d repositories", len(ents), len(names))
	}
	m := http.NewServeMux()
	api.Setup(m, ss, limit)
	l, err := net.Listen("tcp", "127.0.0.1:0")
	must(err)
	w.addr = l.Addr().String()
	w.srv = &http.Server{Handler: m}
	go w.srv.Serve(l)
	return w
}

// breakRepo makes the content of a repository's indexed files unreadable.
func (w *aworld) breakRepo(r *arepo) {
	for _, s := range []string{"raw"} {
		ents, _ := filepath.Glob(filepath.Join(w.dir, "idx-*"))
		for _, x := range ents {
			ref, err := index.Read(x)
			must(err)
			if staticOf(ref.Url) == r.st {
				must(os.RemoveAll(filepath.Join(x, s)))
			}
		}
	}
	r.broken = true
}

func (w *aworld) close() {
	w.srv.Close()
	w.cl.CloseIdleConnections()
	for _, s := range w.ss {
		s.Stop()
	}
	os.RemoveAll(w.dir)
}

func (w *aworld) json() []interface{} {
	out := []interface{}{}
	for _, r := range w.repos {
		out = append(out, map[string]interface{}{"name": r.name, "push": r.push, "corpus": r.corpus, "rev": r.st.rev, "broken": r.broken, "excl": append([]string{}, r.excl...)})
	}
	return out
}

type kv [2]string

// areq is a request.
type areq struct {
	method      string
	path        string
	query, body []kv
	form        bool
	multi       bool   // the form is a multipart one
	raw         []byte // the body, if it is no form
	junk        string // appended to the query: it must be ignored
}

func kvs(ps []kv) []interface{} {
	out := []interface{}{}
	for _, p := range ps {
		out = append(out, []string{p[0], p[1]})
	}
	return out
}

func (q *areq) json() map[string]interface{} {
	return map[string]interface{}{"method": q.method, "query": kvs(q.query), "body": kvs(q.body), "form": q.form}
}

func encodeKVs(rng *rand.Rand, ps []kv) string {
	var s []string
	for _, p := range ps {
		v := url.QueryEscape(p[1])
		if rng.Intn(2) == 0 {
			v = strings.ReplaceAll(v, "+", "%20")
		}
		s = append(s, url.QueryEscape(p[0])+"="+v)
	}
	return strings.Join(s, "&")
}

type answer struct {
	ok     bool
	status int
	header http.Header
	body   []byte
	err    string
}

func (w *aworld) send(rng *rand.Rand, q *areq) answer { return sendTo(rng, w.cl, w.addr, q) }

func sendTo(rng *rand.Rand, cl *http.Client, addr string, q *areq) answer {
	u := "http://" + addr + q.path
	qs := encodeKVs(rng, q.query)
	if q.junk != "" {
		if qs != "" && q.junk[0] != '&' {
			qs += "&"
		}
		qs += q.junk
	}
	if qs != "" {
		u += "?" + qs
	}
	var body io.Reader
	ct := ""
	if q.multi {
		var b bytes.Buffer
		mw := multipart.NewWriter(&b)
		for _, p := range q.body {
			mw.WriteField(p[0], p[1])
		}
		mw.Close()
		body, ct = &b, mw.FormDataContentType()
	} else if q.form {
		body, ct = strings.NewReader(encodeKVs(rng, q.body)), "application/x-www-form-urlencoded"
	} else if q.raw != nil {
		body, ct = bytes.NewReader(q.raw), "application/json"
	} else if len(q.body) > 0 {
		body = strings.NewReader(encodeKVs(rng, q.body)) // a body, but no form
	}
	rq, err := http.NewRequest(q.method, u, body)
	must(err)
	if ct != "" {
		rq.Header.Set("Content-Type", ct)
	}
	rs, err := cl.Do(rq)
	if err != nil {
		return answer{err: err.Error()}
	}
	defer rs.Body.Close()
	b, err := io.ReadAll(rs.Body)
	if err != nil {
		return answer{err: err.Error()}
	}
	return answer{ok: true, status: rs.StatusCode, header: rs.Header, body: b}
}

// apiCorpus makes files around a few words.
func apiCorpus(rng *rand.Rand, i int) []*vfile {
	words := []string{"hit", "HIT", "a.b", "a+b", "miss", "hit a.b", "", "x", "é hit", "axb", "Hit (1)", "foo&bar", "hit\thit", "%41", "A"}
	var fs []*vfile
	n := 1 + rng.Intn(7)
	for k := 0; k < n; k++ {
		var sb strings.Builder
		for l := rng.Intn(12); l > 0; l-- {
			sb.WriteString(words[rng.Intn(len(words))])
			if l > 1 || rng.Intn(2) == 0 {
				sb.WriteByte('\n')
			}
		}
		fs = append(fs, textFile(fmt.Sprintf("%s/f%d%s", []string{"src", "test", "a b", "é"}[rng.Intn(4)], k, []string{".go", ".c", ""}[rng.Intn(3)]), sb.String()))
	}
	return fs
}

// apat is a text with what it means as a pattern.
type apat struct {
	s  string
	re *node // nil: it is none
}

func (p apat) re1() interface{} {
	if p.s == "" {
		return leaf("empty").json()
	}
	if p.re == nil {
		return map[string]string{"op": "invalid"}
	}
	return p.re.json()
}

var apiQueries = []apat{{"hit", lit("hit")}, {"a.b", cat(lit("a"), leaf("any"), lit("b"))}, {"a+b", cat(un("plus", lit("a")), lit("b"))}, {"hit|miss", alt(lit("hit"), lit("miss"))},
	{"^hit$", cat(leaf("bol"), lit("hit"), leaf("eol"))}, {"(", nil}, {"a**", nil}, {"[", nil}, {"", leaf("empty")}, {"nowhere", lit("nowhere")}, {"^$", cat(leaf("bol"), leaf("eol"))},
	{"é", lit("é")}, {"foo&bar", lit("foo&bar")}, {"hit\thit", lit("hit\thit")}, {"%41", lit("%41")}, {"Hit \\(1\\)", lit("Hit (1)")}, {".", leaf("any")}, {"HIT", lit("HIT")}, {"hit;x", lit("hit;x")}, {"x", lit("x")}, {"A", lit("A")},
	{" hit", lit(" hit")}, {"hit ", lit("hit ")}, {"\thit", lit("\thit")}, {" ", lit(" ")}, {"é ", lit("é ")}}

var apiPaths = []apat{{"", nil}, {"go$", cat(lit("go"), leaf("eot"))}, {"^src", cat(leaf("bot"), lit("src"))}, {"a b", lit("a b")}, {"f[12]", cat(lit("f"), class(false, '1', '2'))},
	{"(", nil}, {"nothing", lit("nothing")}, {"é/", lit("é/")}, {"SRC", lit("SRC")}, {".", leaf("any")}, {"\\.", lit(".")},
	{" b", lit(" b")}, {"a ", lit("a ")}, {" ", lit(" ")}, {"b/ ", lit("b/ ")}}

var boolVals = []string{"true", "1", "fosho", "TRUE", "Fosho", "True", "fOsHo", "false", "0", "", "yes", "on", "t", "2", "true ", "nope", "FALSE", "tru", "11"}
var ctxVals = []string{"0", "1", "2", "3", "5", "19", "20", "21", "22", "100", "", "-1", "x", "1.5", "+3", "007", "99999999999", "18014398509481983", "18014398509481984", "99999999999999999999", "1e1", " 2", "0x2", "010", "0b11", "0o3", "1_0", "012"}
var rngVals = []string{"", "0:0", "0:1", "1:1", "1:2", "0:5", "2:", ":2", ":", "1", "a:b", "1:b", "a:1", "-1:2", "0:-1", "1:2:3", "100:1", "0:100", "0:4294967296", "4294967296:1", "9223372036854775807:9223372036854775807", "1:9223372036854775807", "18446744073709551616:1", "0:18446744073709551616", "+1:+1", " 1:2", "01:02", "0:010", "0x1:2", "1:0x2", "0:1_0", "0b1:0b10", "010:1", "1-2", "0-1", "1,2", "0..1", "1 2", "1;2", "0:1 ", "0: 1", "\t1:2", "1:2\n", "１:２", "1：2", "1:2:", "1::2", ":0:1", "1.0:2.0", "1e0:2e0", "+0:+1", "-0:1"}
var limitVals = []string{"", "0", "1", "2", "3", "5", "10", "-1", "-2", "-100", "x", "1.5", "+2", "003", "99999", "100000", "100001", "99999999999", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "99999999999999999999999", "--1", "+", "-", "010", "0x2", "1_0", "0b1"}

func pickS(rng *rand.Rand, ss []string) string { return ss[rng.Intn(len(ss))] }

func (e *searchEnv) matchJSON(order map[string]int, fm []*index.FileMatch) []interface{} {
	fs := []interface{}{}
	for _, f := range fm {
		ms := []interface{}{}
		for _, m := range f.Matches {
			ms = append(ms, map[string]interface{}{"n": m.LineNumber, "l": textOrBytes(m.Line), "b": stringsJSON(m.Before), "a": stringsJSON(m.After)})
		}
		k, ok := order[f.Filename]
		if !ok {
			k = 0
		}
		fs = append(fs, map[string]interface{}{"f": k, "ms": ms})
	}
	return fs
}

func isJSON(a answer) bool {
	return json.Valid(a.body) && strings.HasPrefix(a.header.Get("Content-Type"), "application/json")
}

func errText(b []byte) (string, bool) {
	var m map[string]json.RawMessage
	if json.Unmarshal(b, &m) != nil || m["Error"] == nil {
		return "", false
	}
	var s string
	if json.Unmarshal(m["Error"], &s) != nil {
		return "", false
	}
	return s, true
}

func (e *searchEnv) searchReq(rec *recorder, rng *rand.Rand, w *aworld, id string) {
	qp, fp, xp := apiQueries[rng.Intn(len(apiQueries))], apat{}, apat{}
	if rng.Intn(3) == 0 { // mostly something that is found
		qp = apiQueries[[]int{0, 1, 3, 13, 16}[rng.Intn(5)]]
	}
	var ps []kv
	put := func(k, v string) { ps = append(ps, kv{k, v}) }
	if qp.s != "" || rng.Intn(2) == 0 {
		put("q", qp.s)
	}
	var names []string
	for _, r := range w.repos {
		names = append(names, r.name)
	}
	switch rng.Intn(9) {
	case 0:
	case 1, 2, 3:
		put("repos", []string{"*", "*", " * ", "*\n"}[rng.Intn(4)])
	default:
		var l []string
		for k := rng.Intn(5); k > 0; k-- {
			l = append(l, pickS(rng, append([]string{"nosuch", "", "**", "Repo1"}, append(names, names...)...)))
		}
		v := strings.Join(l, ",")
		if rng.Intn(6) == 0 {
			v = " " + v + " "
		}
		put("repos", v)
	}
	if rng.Intn(3) == 0 {
		fp = apiPaths[rng.Intn(len(apiPaths))]
		put("files", fp.s)
	}
	if rng.Intn(3) == 0 {
		xp = apiPaths[rng.Intn(len(apiPaths))]
		put("excludeFiles", xp.s)
	}
	if rng.Intn(3) > 0 {
		put("i", pickS(rng, boolVals))
	}
	if rng.Intn(3) == 0 {
		put("literal", pickS(rng, boolVals))
	}
	if rng.Intn(2) == 0 {
		put("stats", pickS(rng, boolVals))
	}
	if rng.Intn(2) == 0 {
		put("ctx", pickS(rng, ctxVals))
	}
	if rng.Intn(2) == 0 {
		put("rng", pickS(rng, rngVals))
	}
	if rng.Intn(2) == 0 {
		put("limit", pickS(rng, limitVals))
	}
	if rng.Intn(6) == 0 { // options it does not know
		put(pickS(rng, []string{"I", "Q", "max", "repo", "callback"}), pickS(rng, []string{"true", "1", "hit", ""}))
	}
	rng.Shuffle(len(ps), func(i, j int) { ps[i], ps[j] = ps[j], ps[i] })
	q := &areq{method: "GET", path: "/api/v1/search", query: ps}
	switch rng.Intn(6) {
	case 0: // split over query and form; the form counts first
		q.method, q.form = "POST", true
		if rng.Intn(4) == 0 {
			q.method = "PUT"
		}
		k := rng.Intn(len(ps) + 1)
		q.query, q.body = ps[:k:k], ps[k:]
		for _, p := range q.body {
			if rng.Intn(4) == 0 && p[0] != "q" && p[0] != "files" && p[0] != "excludeFiles" {
				q.query = append(q.query, kv{p[0], pickS(rng, []string{"0", "1", "*", "true", "nosuch", "0:1"})})
			}
		}
	case 1: // given twice: the first counts
		for _, p := range ps {
			if rng.Intn(3) == 0 {
				q.query = append(q.query, kv{p[0], pickS(rng, []string{"0", "1", "*", "true", "(", "0:1"})})
			}
		}
	case 2:
		q.method, q.form, q.multi = "POST", true, true
		q.query, q.body = nil, ps
	case 3:
		if rng.Intn(2) == 0 {
			q.method = "DELETE"
		} else { // a body that is no form is ignored
			q.method = "POST"
			q.body = []kv{{"i", "true"}, {"ctx", "1"}}
		}
	}
	if rng.Intn(10) == 0 {
		q.junk = pickS(rng, []string{"i=%zz", "ctx=%", "&&&", "%zz=1", "a;b=1", "repos=%q"})
	}
	for _, n := range []*node{qp.re, fp.re, xp.re} {
		if n != nil {
			e.orbits.addNode(n)
		}
	}
	e.orbits.addText(qp.s)
	a := w.send(rng, q)
	absent := map[string]string{"op": "absent"}
	r := map[string]interface{}{"id": id, "kind": "search", "req": q.json(), "deflimit": w.limit, "repos": w.json(),
		"rq": qp.re1(), "lq": lit(qp.s).json(), "rf": absent, "rx": absent}
	if qp.s == "" {
		r["lq"] = leaf("empty").json()
	}
	if fp.s != "" {
		r["rf"] = fp.re1()
	}
	if xp.s != "" {
		r["rx"] = xp.re1()
	}
	got := map[string]interface{}{"answered": a.ok, "status": a.status, "json": a.ok && isJSON(a), "error": false, "errtext": "", "names": []string{}, "results": []interface{}{},
		"stats": false, "opened": 0, "duration": 0}
	if a.ok {
		t, isErr := errText(a.body)
		got["error"], got["errtext"] = isErr, t
		var res struct {
			Results map[string]*index.SearchResponse
			Stats   *struct{ FilesOpened, Duration int }
		}
		if json.Unmarshal(a.body, &res) == nil {
			ns := []string{}
			rs := []interface{}{}
			for n, sr := range res.Results {
				var ar *arepo
				for _, x := range w.repos {
					if x.name == n {
						ar = x
					}
				}
				order := map[string]int{}
				if ar != nil {
					order = ar.order
				}
				ns = append(ns, n)
				rs = append(rs, map[string]interface{}{"rev": sr.Revision, "fwm": sr.FilesWithMatch, "out": e.matchJSON(order, sr.Matches)})
			}
			got["names"], got["results"] = ns, rs
			if res.Stats != nil {
				got["stats"], got["opened"], got["duration"] = true, res.Stats.FilesOpened, res.Stats.Duration
			}
		} else {
			got["json"] = false
		}
	}
	r["got"] = got
	r["about"] = fmt.Sprintf("%s %s query %q body %q (form %v, junk %q) over %s: %d %.500s %s", q.method, q.path, q.query, q.body, q.form, q.junk, text(w.json()), a.status, a.body, a.err)
	rec.put(r)
}

var apiNames = []string{"repo1", "a/b", "x y", "é", "r&d", "100%", "**", "A", "a", "\"q\"", "_x", ".h", "--", "x  ", "true", "%41"}

func (e *searchEnv) someWorld(rng *rand.Rand, limit int) *aworld {
	names := append([]string{}, apiNames...)
	rng.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	return e.newWorld(rng, names[:1+rng.Intn(4)], func(i int) ([]*vfile, map[string][]byte) {
		raw := map[string][]byte{}
		for k := rng.Intn(3); k > 0; k-- {
			raw[fmt.Sprintf([]string{"bin/x%d<é>.dat", "bin/x%d %%d%%s%%%%.dat", "x%d\"&'.bin"}[k%3], k)] = []byte("\xff\xfe\x00binary hit")
		}
		return apiCorpus(rng, i), raw
	}, func(i int) bool { return rng.Intn(3) > 0 }, limit)
}

func cmdAPI(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(20)
	id := 0
	for w := 0; w < pick(14, 120); w++ {
		aw := e.someWorld(rng, []int{5000, 5000, 3, 1, 0, 200000}[w%6])
		if w%4 == 3 {
			aw.breakRepo(aw.repos[rng.Intn(len(aw.repos))])
		}
		for k := 0; k < pick(90, 400); k++ {
			id++
			e.searchReq(rec, rng, aw, fmt.Sprintf("q%d", id))
		}
		aw.close()
	}
	e.write()
	rec.close()
}

// pulled waits for the fetches a request causes and returns who was fetched.
func (w *aworld) pulled(before map[string]int, hope map[string]bool) []string {
	deadline := time.Now().Add(10 * time.Second)
	quiet := time.Now().Add(8 * time.Millisecond)
	for {
		n := 0
		for _, r := range w.repos {
			r.st.mu.Lock()
			if hope[r.name] && r.st.pulls > before[r.name] {
				n++
			}
			r.st.mu.Unlock()
		}
		now := time.Now()
		if (n == len(hope) && now.After(quiet)) || now.After(deadline) {
			break
		}
		time.Sleep(time.Millisecond)
	}
	out := []string{}
	for _, r := range w.repos {
		r.st.mu.Lock()
		if r.st.pulls > before[r.name] {
			out = append(out, r.name)
		}
		r.st.mu.Unlock()
	}
	sort.Strings(out)
	return out
}

func (e *searchEnv) otherReq(rec *recorder, rng *rand.Rand, w *aworld, id string, kinds int) {
	methods := []string{"POST", "POST", "POST", "GET", "GET", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}
	var names []string
	push := map[string]bool{}
	for _, r := range w.repos {
		names = append(names, r.name)
		push[r.name] = r.push
	}
	some := func() string {
		return pickS(rng, append([]string{"nosuch", "", "*", "a,b", strings.ToUpper(names[0]), names[0] + " ", " " + names[0], strings.TrimSpace(names[len(names)-1])}, append(names, append(names, names...)...)...))
	}
	q := &areq{method: pickS(rng, methods)}
	r := map[string]interface{}{"id": id, "repos": w.json()}
	hope, maybe := map[string]bool{}, map[string]bool{}
	switch rng.Intn(kinds) {
	case 0, 1, 2, 3:
		r["kind"] = "update"
		q.path = "/api/v1/update"
		var l []string
		for k := 1 + rng.Intn(4); k > 0; k-- {
			l = append(l, some())
		}
		v := strings.Join(l, ",")
		if rng.Intn(4) == 0 {
			v = "*"
		}
		ps := []kv{{"repos", v}}
		if rng.Intn(10) == 0 {
			ps = nil
		}
		switch rng.Intn(3) {
		case 0:
			q.query = ps
		case 1:
			q.form, q.body = true, ps
			if rng.Intn(3) == 0 {
				q.query = []kv{{"repos", pickS(rng, names)}}
			}
		case 2:
			if q.method == "POST" || q.method == "PUT" || q.method == "PATCH" {
				q.form, q.multi, q.body = true, true, ps
			} else {
				q.query = ps
			}
		}
		if len(ps) > 0 && q.method == "POST" {
			for _, n := range strings.Split(v, ",") {
				if push[n] && !hope[n] {
					hope[n] = true
				} else if push[n] {
					maybe[n] = true
				} else if _, ok := push[n]; ok && !push[n] {
					break
				}
			}
		}
		if strings.TrimSpace(v) == "*" && q.method == "POST" {
			hope, maybe = map[string]bool{}, map[string]bool{}
			all := true
			for _, n := range names {
				all = all && push[n]
			}
			for _, n := range names {
				if push[n] && all {
					hope[n] = true
				} else if push[n] { // if it comes before the one that is refused
					maybe[n] = true
				}
			}
		}
	case 4, 5, 6:
		r["kind"] = "webhook"
		q.path = "/api/v1/github-webhook"
		n := some()
		hook := map[string]interface{}{"malformed": false, "name": n}
		full := map[string]interface{}{"ref": "refs/heads/main", "repository": map[string]interface{}{"id": 5, "name": pickS(rng, names), "full_name": n, "private": true}}
		b, _ := json.Marshal(full)
		switch rng.Intn(8) {
		case 0:
			hook["malformed"] = true
			b = [][]byte{[]byte("not json"), {}, b[:len(b)-1], []byte("[]"), []byte(`"x"`), []byte(`{"repository": 5}`), []byte(`{"repository": {"full_name": 5}}`),
				[]byte("payload=" + url.QueryEscape(string(b))), []byte("{"), []byte(`{"repository":{"full_name":"` + names[0] + "\n\"}}"), []byte("\xff")}[rng.Intn(11)]
		case 1: // well-formed, but names no repository
			hook["name"] = ""
			b = [][]byte{[]byte("null"), []byte("{}"), []byte(`{"repository": null}`), []byte(`{"repository": {}}`), []byte(`{"repository": {"name": "` + strings.ReplaceAll(names[0], `"`, `\"`) + `"}}`), []byte(`{"full_name": "a"}`)}[rng.Intn(6)]
		case 2:
			b, _ = json.MarshalIndent(full, "", "  ")
		case 3:
			full["big"] = strings.Repeat("x", 1<<20)
			b, _ = json.Marshal(full)
		}
		r["hook"] = hook
		q.raw = b
		if q.raw == nil {
			q.raw = []byte{}
		}
		if q.method == "POST" && !hook["malformed"].(bool) && push[hook["name"].(string)] {
			hope[hook["name"].(string)] = true
		}
	case 7:
		r["kind"] = "excludes"
		q.path = "/api/v1/excludes"
		ps := []kv{{"repo", some()}}
		if rng.Intn(8) == 0 {
			ps = nil
		}
		q.query = ps
		if (q.method == "POST" || q.method == "PUT") && rng.Intn(2) == 0 {
			q.query, q.body, q.form = nil, ps, true
		}
	case 8:
		r["kind"] = "repos"
		q.path = "/api/v1/repos"
	}
	before := map[string]int{}
	for _, x := range w.repos {
		x.st.mu.Lock()
		before[x.name] = x.st.pulls
		x.st.mu.Unlock()
	}
	a := w.send(rng, q)
	if a.status != 200 && a.status != 403 {
		hope = nil
	}
	got := map[string]interface{}{"answered": a.ok, "status": a.status, "json": a.ok && isJSON(a), "errtext": "", "list": []string{}}
	late := []string{}
	for _, n := range names {
		if time.Since(w.late[n]) < time.Second {
			late = append(late, n)
		}
	}
	r["late"] = late
	pulled := w.pulled(before, hope)
	got["pulled"] = pulled
	// who may be fetched once more
	for _, n := range names {
		wanted := false
		for _, m := range pulled {
			wanted = wanted || m == n
		}
		if wanted && time.Since(w.late[n]) < time.Second || maybe[n] && a.status != 405 {
			w.late[n] = time.Now()
		}
	}
	if len(maybe) > 0 && a.status != 405 {
		time.Sleep(50 * time.Millisecond)
	}
	if a.ok {
		if t, is := errText(a.body); is {
			got["errtext"] = t
		}
		list := []string{}
		switch r["kind"] {
		case "excludes":
			var fs []struct{ Filename, Reason string }
			if json.Unmarshal(a.body, &fs) == nil {
				for _, f := range fs {
					if f.Reason == "" {
						f.Filename += " (no reason)"
					}
					list = append(list, f.Filename)
				}
			}
		case "repos":
			var m map[string]struct{ Url string }
			if json.Unmarshal(a.body, &m) == nil {
				for n, x := range m {
					if !strings.HasPrefix(x.Url, "static://") {
						n += " (no url)"
					}
					list = append(list, n)
				}
			}
		}
		got["list"] = list
	}
	r["req"] = q.json()
	r["got"] = got
	r["about"] = fmt.Sprintf("%s %s query %q body %q %.100q over %s: %d %.300s %s; fetched %v", q.method, q.path, q.query, q.body, q.raw, text(w.json()), a.status, a.body, a.err, got["pulled"])
	rec.put(r)
}

func cmdRequests(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	id := 0
	n := pick(10, 80)
	kinds := 9
	if len(args) > 0 { // update requests only
		kinds = 7
	}
	worlds := make([]*aworld, n)
	rngs := make([]*rand.Rand, n)
	for i := range worlds {
		rngs[i] = newRand(21000 + int64(i))
		worlds[i] = e.someWorld(rngs[i], 5000)
	}
	var mu sync.Mutex
	parallel(n, 6, func(i int) {
		for k := 0; k < pick(120, 500); k++ {
			mu.Lock()
			id++
			me := id
			mu.Unlock()
			e.otherReq(rec, rngs[i], worlds[i], fmt.Sprintf("r%d", me), kinds)
		}
		worlds[i].close()
	})
	e.write()
	rec.close()
}

func init() {
	commands["api"] = cmdAPI
	commands["requests"] = cmdRequests
}
