package main

// The daemon's life: scenarios generated by TLC from spec/Hound.tla are replayed
// against the real searchers, with a version control driver under our control,
// and everything observable is recorded for spec/HoundTrace.tla.

import (
	"encoding/json"
	"errors"
	"fmt"
	"hash/fnv"
	"io"
	"log"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
)

func init() { commands["life"] = lifeCommand }

type lifeCfg struct {
	Slots int    `json:"slots"`
	Poll  []bool `json:"poll"`
	Push  []bool `json:"push"`
	Url   []int  `json:"url"`
	Bad   []int  `json:"bad"`
	// how urls and revisions are called: Naming%4 and Naming/4
	Naming int `json:"naming"`
}

type step struct {
	Op string `json:"op"`
	R  int    `json:"r"`
	V  int    `json:"v"`
	lifeCfg
}

type ev = map[string]interface{}

type fetch struct {
	cmd  chan string
	done bool
}

type pulled struct {
	v      int
	doomed bool
	ok     bool
	later  bool // another fetch has begun since
}

type world struct {
	mu     sync.Mutex
	cond   *sync.Cond
	id     string
	dir    string
	db     string
	cfg    lifeCfg
	ev     []ev
	up     map[int]int
	gated  bool
	frozen bool
	dead   bool
	fetch  map[int]*fetch
	pulls  map[int]*pulled
	nfetch map[int]int
	need   map[int]int // how many fetches there must have been, after the requests accepted
	flt    map[int]bool
	slow   int    // bytes of padding in each tree
	blind  bool   // the trees cannot be read at present
	tmp    string // where builds make their temporary files, if that is looked at
	rng    *rand.Rand
	torn   map[string]bool // index directories that only look complete

	searchers map[string]*searcher.Searcher
	failed    []int
	booted    chan bool // closed when MakeAll has returned
	up1       bool      // the daemon is up
	stopping  map[int]bool
	stopped   map[int]bool
	stuckDirs map[string]string // name -> path made read-only
	extra     []string
	left      map[string]bool // directories without a manifest at the last boot
	opn       int
	cap       int
	quiet     bool         // no searches for the time being
	held      bool         // fetches wait to be told how to end
	ops       sync.RWMutex // held for reading while an operation on a searcher is under way
	lastBusy  string
	sink      io.Writer // where events also go at once
	onEvent   func(e ev)
}

var (
	worldsMu sync.Mutex
	worlds   = map[string]*world{}
)

type fakeDriver struct {
	w *world
	r int
}

func init() {
	vcs.Register(func(b []byte) (vcs.Driver, error) {
		var c struct {
			World string `json:"world"`
			Repo  int    `json:"repo"`
			Bad   bool   `json:"bad"`
		}
		if err := json.Unmarshal(b, &c); err != nil {
			return nil, err
		}
		if c.Bad {
			return nil, errors.New("misconfigured")
		}
		worldsMu.Lock()
		defer worldsMu.Unlock()
		w := worlds[c.World]
		if w == nil {
			die("no world %q", c.World)
		}
		return &fakeDriver{w, c.Repo}, nil
	}, "fake")
}

func (d *fakeDriver) Clone(dir, url string) (string, error) { return d.w.pull(d.r, dir) }
func (d *fakeDriver) Pull(dir string) (string, error)       { return d.w.pull(d.r, dir) }
func (d *fakeDriver) HeadRev(dir string) (string, error) {
	return "", errors.New("not used")
}
func (d *fakeDriver) SpecialFiles() []string { return []string{".fake"} }
func (d *fakeDriver) AutoGeneratedFiles(dir string) []string {
	b, err := os.ReadFile(filepath.Join(dir, ".fake", "auto"))
	if err != nil {
		return nil
	}
	return strings.Fields(string(b))
}

// log records an event; w.mu is held.
func (w *world) log(e ev) {
	if w.dead {
		return
	}
	w.ev = append(w.ev, e)
	if w.sink != nil {
		b, _ := json.Marshal(e)
		w.sink.Write(append(b, '\n'))
	}
	if w.onEvent != nil {
		w.onEvent(e)
	}
}

func (w *world) logl(e ev) {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.log(e)
}

func (w *world) pull(r int, dir string) (string, error) {
	w.mu.Lock()
	if w.dead {
		w.mu.Unlock()
		return "", errors.New("the world is gone")
	}
	w.log(ev{"e": "pullstart", "r": r})
	f := &fetch{cmd: make(chan string, 1)}
	w.fetch[r] = f
	w.nfetch[r]++
	if p := w.pulls[r]; p != nil {
		p.later = true
	}
	gated := w.gated
	w.cond.Broadcast()
	w.mu.Unlock()
	cmd := "ok"
	if gated {
	wait:
		for {
			select {
			case cmd = <-f.cmd:
				break wait
			case <-time.After(250 * time.Millisecond):
				if !w.isHeld() {
					break wait
				}
			}
		}
	} else if w.slow == 0 {
		time.Sleep(time.Duration(w.rnd(3000)) * time.Microsecond)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	for w.frozen && !w.dead {
		w.cond.Wait()
	}
	if w.dead {
		return "", errors.New("the world is gone")
	}
	delete(w.fetch, r)
	if cmd == "fail" {
		w.pulls[r] = &pulled{ok: false}
		w.log(ev{"e": "pullfail", "r": r})
		w.cond.Broadcast()
		return "", errors.New("injected fetch failure")
	}
	u := w.cfg.Url[r-1]
	v := w.up[u]
	w.writeTree(dir, u, v, w.flt[r])
	w.pulls[r] = &pulled{v: v, doomed: w.flt[r], ok: true}
	if w.up1 && len(w.ev) < w.cap {
		// something is about to happen
		for k := 0; k < 3; k++ {
			go func(d time.Duration, x bool, kind string) {
				time.Sleep(d)
				if x {
					w.excluded(r)
				} else {
					w.search(r, kind)
				}
			}(time.Duration(w.rng.Intn(60))*time.Millisecond, w.rng.Intn(2) == 0, kinds[w.rng.Intn(len(kinds))])
		}
	}
	w.log(ev{"e": "pullok", "r": r, "v": v})
	w.cond.Broadcast()
	return w.cfg.revName(v), nil
}

func (w *world) rnd(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.rng.Intn(n)
}

func nfiles(v int) int { return 3 + v%3 }

func fileText(u, v, k int) string {
	return fmt.Sprintf("mark %d %d %d 1\nMark %d %d %d 2\n", u, v, k, u, v, k)
}

// writeTree makes dir contain revision v of remote u.
func (w *world) writeTree(dir string, u, v int, unreadable bool) {
	if w.blind {
		for k := 0; k < 60; k++ {
			if k < 5 {
				os.Remove(filepath.Join(dir, fmt.Sprintf("f%d", k)))
			}
			os.Remove(filepath.Join(dir, fmt.Sprintf("bin%d", k)))
		}
	} else if ents, err := os.ReadDir(dir); err == nil {
		for _, e := range ents {
			p := filepath.Join(dir, e.Name())
			os.Chmod(p, 0755)
			must(os.RemoveAll(p))
		}
	}
	must(os.MkdirAll(filepath.Join(dir, ".fake"), 0755))
	for k := 0; k < nfiles(v); k++ {
		must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d", k)), []byte(fileText(u, v, k)), 0644))
	}
	must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("bin%d", v)), []byte{0xff, 0xfe, 0, 1}, 0644))
	must(os.WriteFile(filepath.Join(dir, ".fake", "auto"), []byte(fmt.Sprintf("f%d", v%3)), 0644))
	must(os.WriteFile(filepath.Join(dir, ".fake", "special"), []byte("mark special\n"), 0644))
	if w.slow > 0 {
		for k := 0; k < 4; k++ {
			must(os.WriteFile(filepath.Join(dir, fmt.Sprintf("pad%d", k)), padText(w.slow/4, v+k), 0644))
		}
	}
	if unreadable {
		if v%2 == 0 {
			must(os.WriteFile(filepath.Join(dir, "zz"), []byte("x"), 0644))
			must(os.Chmod(filepath.Join(dir, "zz"), 0))
		} else {
			must(os.MkdirAll(filepath.Join(dir, "f1dir"), 0755))
			must(os.Chmod(filepath.Join(dir, "f1dir"), 0))
		}
	}
}

func padText(n, salt int) []byte {
	r := rand.New(rand.NewSource(int64(salt)))
	b := make([]byte, 0, n)
	for len(b) < n {
		for i := 0; i < 60; i++ {
			b = append(b, "abcdefghijklmnop "[r.Intn(17)])
		}
		b = append(b, '\n')
	}
	return b
}

func newWorld(id, dir string, c lifeCfg, sd int64) *world {
	w := &world{id: id, dir: dir, db: filepath.Join(dir, "db"), cfg: c, torn: map[string]bool{},
		up: map[int]int{}, fetch: map[int]*fetch{}, pulls: map[int]*pulled{}, nfetch: map[int]int{}, need: map[int]int{}, flt: map[int]bool{},
		stopping: map[int]bool{}, stopped: map[int]bool{}, stuckDirs: map[string]string{},
		left: map[string]bool{}, rng: rand.New(rand.NewSource(sd)), cap: 450}
	w.cond = sync.NewCond(&w.mu)
	for _, u := range c.Url {
		w.up[u] = 0
	}
	must(os.MkdirAll(w.db, 0755))
	worldsMu.Lock()
	worlds[id] = w
	worldsMu.Unlock()
	return w
}

func repoName(r int) string { return fmt.Sprintf("repo%d", r) }

// Urls and revisions may have names that are easily confused.
const namings = 4 * 6

func (c *lifeCfg) urlName(u int) string {
	switch c.Naming % 4 {
	case 1: // upper and lower case
		b := []byte("fake://remote/name")
		for k := 0; k < 4; k++ {
			if u>>k&1 == 1 {
				b[14+k] -= 'a' - 'A'
			}
		}
		return string(b)
	case 2: // one begins like the other
		return "fake://remote/" + strings.Repeat("1", u)
	case 3:
		return "fake://remote/x" + []string{"?", "", ".git", "/", "/.git", "#", " ", "//"}[u%8]
	}
	return fmt.Sprintf("fake://remote/%d", u)
}

func (c *lifeCfg) parseURL(s string) int {
	for u := 1; u <= 8; u++ {
		if c.urlName(u) == s {
			return u
		}
	}
	return 0
}

func (c *lifeCfg) revName(v int) string {
	if v < 120 {
		switch c.Naming / 4 {
		case 1:
			return "1" + strings.Repeat("0", v)
		case 2:
			return strings.Repeat("7", 120-v)
		case 3:
			b := []byte("abcdefgh")
			for k := range b {
				if v>>k&1 == 1 {
					b[k] -= 'a' - 'A'
				}
			}
			return string(b)
		case 4:
			return fmt.Sprintf("0123456789abcdef0123456789abcdef0123%04x", v)
		case 5:
			return fmt.Sprintf("%04x0123456789abcdef0123456789abcdef0123", v)
		}
	}
	return fmt.Sprintf("r%d", v)
}

func (c *lifeCfg) parseRev(s string) int {
	if n, err := strconv.Atoi(strings.TrimPrefix(s, "r")); err == nil && strings.HasPrefix(s, "r") && s == c.revName(n) {
		return n
	}
	if c.Naming >= 4 {
		for v := 0; v < 120; v++ {
			if c.revName(v) == s {
				return v
			}
		}
	}
	return -2
}

func (w *world) isBad(r int) bool {
	for _, b := range w.cfg.Bad {
		if b == r {
			return true
		}
	}
	return false
}

func (w *world) config() *config.Config {
	c := &config.Config{DbPath: w.db, MaxConcurrentIndexers: w.cfg.Slots, Repos: map[string]*config.Repo{}, ResultLimit: 5000}
	for i := range w.cfg.Url {
		r := i + 1
		poll, push := w.cfg.Poll[i], w.cfg.Push[i]
		m := config.SecretMessage(fmt.Sprintf(`{"world":%q,"repo":%d,"bad":%v}`, w.id, r, w.isBad(r)))
		rep := &config.Repo{Url: w.cfg.urlName(w.cfg.Url[i]), Vcs: "fake", VcsConfigMessage: &m,
			MsBetweenPolls: 8 + 4*r, EnablePollUpdates: &poll, EnablePushUpdates: &push,
			UrlPattern: &config.UrlPattern{}}
		if w.isBad(r) && r%2 == 0 {
			rep.Vcs = "no-such-system"
		}
		c.Repos[repoName(r)] = rep
	}
	return c
}

// boot starts the daemon; it comes back when startup is under way.
func (w *world) boot() {
	w.mu.Lock()
	w.booted = make(chan bool)
	w.searchers, w.failed = nil, nil
	w.stopping, w.stopped = map[int]bool{}, map[int]bool{}
	w.pulls = map[int]*pulled{}
	w.left = map[string]bool{}
	w.mu.Unlock()
	ds := w.list()
	w.mu.Lock()
	for _, d := range ds {
		w.left[d["name"].(string)] = true // may be deleted when startup is over
	}
	w.log(ev{"e": "boot"})
	w.mu.Unlock()
	ch := w.booted
	go func() {
		ss, errs, err := searcher.MakeAll(w.config())
		w.mu.Lock()
		defer w.mu.Unlock()
		if err != nil {
			w.log(ev{"e": "startup-error", "err": err.Error()})
			close(ch)
			return
		}
		w.searchers = ss
		fs := []int{}
		for r := 1; r <= len(w.cfg.Url); r++ {
			_, a := ss[repoName(r)]
			_, b := errs[repoName(r)]
			if a == b {
				w.log(ev{"e": "neither-served-nor-failed", "r": r})
			}
			if !a {
				fs = append(fs, r)
			}
		}
		w.failed = fs
		w.up1 = true
		w.log(ev{"e": "started", "failed": fs})
		close(ch)
	}()
}

func (w *world) searcher(r int) *searcher.Searcher {
	w.mu.Lock()
	defer w.mu.Unlock()
	if !w.up1 {
		return nil
	}
	return w.searchers[repoName(r)]
}

func (w *world) nextOp() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.opn++
	return w.opn
}

var kinds = []string{"all", "fold", "one", "not", "page", "line", "none"}

func (w *world) search(r int, kind string) int {
	w.ops.RLock()
	defer w.ops.RUnlock()
	s := w.searcher(r)
	if s == nil {
		return -1
	}
	c := w.nextOp()
	w.logl(ev{"e": "sstart", "c": c, "r": r})
	pat := "mark \\d+ \\d+ \\d+ \\d"
	o := &index.SearchOptions{Limit: -1 >> 1, MaxResults: 5000}
	o.Limit = 1 << 30
	switch kind {
	case "all":
		pat = "[mM]ark "
	case "fold":
		pat, o.IgnoreCase = "MARK ", true
	case "one":
		o.IgnoreCase, o.FileRegexp = true, "f1"
	case "not":
		o.IgnoreCase, o.ExcludeFileRegexp = true, "f1"
	case "page":
		o.IgnoreCase, o.Offset, o.Limit = true, 1, 1
	case "line":
		pat = "^Mark .* 2$"
	case "none":
		pat = "mark nothing"
	}
	resp, err := s.Search(pat, o)
	e := ev{"e": "send", "c": c, "r": r, "q": kind, "v": -2, "res": [][]int{}, "auto": []int{}}
	v := -2
	if err == nil {
		v = w.cfg.parseRev(resp.Revision)
		res := [][]int{}
		auto := []int{}
		for _, f := range resp.Matches {
			n, err := strconv.Atoi(strings.TrimPrefix(f.Filename, "f"))
			if err != nil {
				n = -5
			}
			if f.AutoGenerated {
				auto = append(auto, n)
			}
			for _, m := range f.Matches {
				row := []int{n, m.LineNumber}
				var word string
				var a, b, k, l int
				if c, _ := fmt.Sscanf(m.Line, "%s %d %d %d %d", &word, &a, &b, &k, &l); c != 5 || k != n || l != m.LineNumber || strings.ToLower(word) != "mark" {
					a, b = -3, -3
				}
				res = append(res, append(row, a, b))
			}
		}
		e["v"], e["res"], e["auto"] = v, res, auto
	} else {
		e = ev{"e": "serror", "c": c, "r": r, "err": err.Error()}
	}
	w.logl(e)
	return v
}

// served is an unrecorded look at the revision r serves.
func (w *world) served(r int) int {
	s := w.searcher(r)
	if s == nil {
		return -1
	}
	resp, err := s.Search("mark nothing", &index.SearchOptions{Limit: 10, MaxResults: 10})
	if err != nil {
		return -2
	}
	return w.cfg.parseRev(resp.Revision)
}

func (w *world) excluded(r int) {
	w.ops.RLock()
	defer w.ops.RUnlock()
	s := w.searcher(r)
	if s == nil {
		return
	}
	c := w.nextOp()
	w.logl(ev{"e": "xstart", "c": c, "r": r})
	txt := s.GetExcludedFiles()
	if txt == "" {
		w.logl(ev{"e": "xerror", "c": c, "r": r})
		return
	}
	bin := []int{}
	var xs []struct{ Filename, Reason string }
	if err := json.Unmarshal([]byte(txt), &xs); err == nil {
		for _, x := range xs {
			n, err := strconv.Atoi(strings.TrimPrefix(x.Filename, "bin"))
			if err != nil {
				n = -5
			}
			bin = append(bin, n)
		}
	}
	w.logl(ev{"e": "xend", "c": c, "r": r, "bin": bin})
}

func (w *world) request(r int) {
	s := w.searcher(r)
	if s == nil {
		return
	}
	c := w.nextOp()
	w.logl(ev{"e": "ustart", "c": c, "r": r})
	if !w.within(20*time.Second, func() {
		w.mu.Lock()
		n := w.nfetch[r] + 1
		w.mu.Unlock()
		ok := s.Update()
		w.mu.Lock()
		if ok && w.searchers != nil && w.need[r] < n {
			w.need[r] = n
		}
		w.log(ev{"e": "uend", "c": c, "r": r, "ok": ok})
		w.mu.Unlock()
	}) {
		w.logl(ev{"e": "stuck", "what": fmt.Sprintf("an update request for repository %d did not return", r)})
	}
}

// within runs f and says whether it came back in time.
func (w *world) within(d time.Duration, f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(d):
		return false
	}
}

func (w *world) stop(r int) {
	s := w.searcher(r)
	if s == nil {
		return
	}
	w.mu.Lock()
	first := !w.stopping[r]
	w.stopping[r] = true
	w.mu.Unlock()
	c := w.nextOp()
	w.logl(ev{"e": "stopstart", "c": c, "r": r})
	if !w.within(20*time.Second, func() {
		s.Stop()
		w.logl(ev{"e": "stopend", "c": c, "r": r})
	}) {
		w.logl(ev{"e": "stuck", "what": fmt.Sprintf("a stop request for repository %d did not return", r)})
	}
	if first {
		go func() {
			s.Wait()
			w.mu.Lock()
			defer w.mu.Unlock()
			w.stopped[r] = true
			w.log(ev{"e": "waitend", "r": r})
			w.cond.Broadcast()
		}()
	}
}

// list shows the index directories.
func (w *world) list() []ev {
	out := []ev{}
	ds, err := filepath.Glob(filepath.Join(w.db, "idx-*"))
	must(err)
	for _, d := range ds {
		nm := filepath.Base(d)
		h := fnv.New32a()
		h.Write([]byte(nm))
		n := int(h.Sum32()>>2) + 1
		e := ev{"name": nm, "nm": n, "full": false, "url": 0, "rev": -1}
		r, err := index.Read(d)
		if err == nil {
			u := w.cfg.parseURL(r.Url)
			e["full"], e["url"], e["rev"] = true, u, w.cfg.parseRev(r.Rev)
		} else if _, e2 := os.Stat(d); e2 != nil {
			continue // gone meanwhile
		}
		out = append(out, e)
	}
	return out
}

func (w *world) ok() []int {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out []int
	if w.up1 {
		for r := range w.cfg.Url {
			if w.searchers[repoName(r+1)] != nil {
				out = append(out, r+1)
			}
		}
	}
	return out
}

// settled: fetching is held up, and every update whose fetch succeeded has taken effect.
// The caller thaws. A nil listing means it did not settle in time.
func (w *world) freeze(d time.Duration) (dirs []ev, shape bool) {
	w.mu.Lock()
	w.frozen = true
	w.mu.Unlock()
	end := time.Now().Add(d)
	for {
		shape = true
		settled := true
		for _, r := range w.ok() {
			w.mu.Lock()
			var p pulled
			if w.pulls[r] != nil {
				p = *w.pulls[r]
			}
			w.mu.Unlock()
			if p.ok && p.doomed && !p.later {
				settled = false
			}
			if p.ok && !p.doomed && w.served(r) != p.v {
				settled = false
			}
		}
		dirs = w.list()
		full := 0
		for _, x := range dirs {
			if x["full"].(bool) {
				full++
			} else if !w.isStuck(x["name"].(string)) {
				shape = false
			}
		}
		if full != len(w.ok()) {
			shape = false
		}
		if settled && shape {
			return dirs, true
		}
		if time.Now().After(end) {
			if settled {
				return dirs, false
			}
			return nil, false
		}
		time.Sleep(2 * time.Millisecond)
	}
}

// isStuck: a directory that was made undeletable or was there at the start.
func (w *world) isStuck(nm string) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stuckDirs[nm] != "" || w.left[nm] && !w.up1
}

func (w *world) thaw() {
	w.mu.Lock()
	w.frozen = false
	w.cond.Broadcast()
	w.mu.Unlock()
}

// snap records what is on disk when nothing is being built.
func (w *world) snap(d time.Duration, insist bool) {
	if !w.isUp() {
		return
	}
	dirs, shape := w.freeze(d)
	defer w.thaw()
	if dirs == nil || (!shape && !insist) {
		return
	}
	lost := []string{}
	for _, x := range w.extra {
		if _, err := os.Lstat(filepath.Join(w.db, x)); err != nil {
			lost = append(lost, x)
		}
	}
	if w.tmp != "" {
		left, _ := filepath.Glob(filepath.Join(w.tmp, "*"))
		for _, x := range left {
			lost = append(lost, "temporary file "+strings.TrimRight(filepath.Base(x), "0123456789"))
		}
	}
	out := []ev{}
	for _, x := range dirs {
		out = append(out, ev{"nm": x["nm"], "full": x["full"], "url": x["url"], "rev": x["rev"]})
	}
	w.logl(ev{"e": "snap", "dirs": out, "lost": lost})
}

// stick makes the index r serves undeletable.
func (w *world) stick(r int) {
	if os.Geteuid() == 0 {
		return
	}
	n := 0
	for _, u := range w.cfg.Url {
		if u == w.cfg.Url[r-1] {
			n++
		}
	}
	if n > 1 || w.searcher(r) == nil {
		return
	}
	dirs, shape := w.freeze(300 * time.Millisecond)
	defer w.thaw()
	if dirs == nil || !shape {
		return
	}
	for _, d := range dirs {
		if d["full"].(bool) && d["url"].(int) == w.cfg.Url[r-1] {
			p := filepath.Join(w.db, d["name"].(string), "raw")
			must(os.Chmod(p, 0555))
			w.mu.Lock()
			w.stuckDirs[d["name"].(string)] = p
			w.log(ev{"e": "stick", "r": r})
			w.mu.Unlock()
		}
	}
}

func (w *world) unstick() {
	if len(w.stuckDirs) == 0 {
		return
	}
	// while one is being deleted it cannot be told whether it was stuck then
	dirs, shape := w.freeze(5 * time.Second)
	if dirs == nil || !shape {
		w.thaw()
		return
	}
	defer w.thaw()
	for _, p := range w.stuckDirs {
		os.Chmod(p, 0755)
	}
	w.logl(ev{"e": "unstick"})
	left := map[string]string{}
	for _, x := range w.list() {
		nm := x["name"].(string)
		if w.stuckDirs[nm] != "" && !x["full"].(bool) {
			left[nm] = w.stuckDirs[nm] // stays until the next start
		}
	}
	w.mu.Lock()
	w.stuckDirs = left
	w.mu.Unlock()
}

func (w *world) commit(u, v int) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if _, ok := w.up[u]; !ok || w.up[u] == v {
		return
	}
	w.up[u] = v
	w.log(ev{"e": "commit", "u": u, "v": v})
}

func (w *world) fault(r int, on bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	if os.Geteuid() == 0 || w.flt[r] == on {
		return
	}
	w.flt[r] = on
	w.log(ev{"e": "fault", "r": r, "on": on})
}

// busy records how many directories are being written or deleted at one moment.
func (w *world) busy() {
	part := func() map[string]bool {
		m := map[string]bool{}
		for _, x := range w.list() {
			nm := x["name"].(string)
			if !x["full"].(bool) && !w.isStuck(nm) {
				m[nm] = true
			}
		}
		return m
	}
	a := part()
	w.mu.Lock()
	pulls := []int{}
	for r := range w.fetch {
		pulls = append(pulls, r)
	}
	n := len(w.ev)
	w.mu.Unlock()
	if len(a) == 0 && len(pulls) < w.cfg.Slots {
		return
	}
	b := part()
	k := 0
	for x := range a {
		if b[x] {
			k++
		}
	}
	sort.Ints(pulls)
	w.mu.Lock()
	defer w.mu.Unlock()
	if len(w.ev) != n || k == 0 || w.frozen || len(w.ev) > w.cap {
		return // something happened in between: no verdict about that moment
	}
	if x := fmt.Sprint(len(w.ev), pulls, k); x == w.lastBusy {
		return
	}
	w.log(ev{"e": "busy", "pulls": pulls, "dirs": k})
	w.lastBusy = fmt.Sprint(len(w.ev), pulls, k)
}

func (w *world) waitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return false
		}
		time.Sleep(2 * time.Millisecond)
	}
	return true
}

func (w *world) inFetch(r int) *fetch {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.fetch[r]
}

func (w *world) isStopped(r int) bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.stopped[r]
}

func (w *world) isUp() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.up1
}

func (w *world) isBooted() bool {
	select {
	case <-w.booted:
		return true
	default:
		return false
	}
}

const patience = 20 * time.Second

func (w *world) stuck(format string, a ...interface{}) {
	w.logl(ev{"e": "stuck", "what": fmt.Sprintf(format, a...)})
}

// do replays one step of a scenario, as far as the real code goes along.
func (w *world) do(s step) {
	short := 120 * time.Millisecond
	switch s.Op {
	case "boot":
		if !w.up1 && w.booted == nil {
			w.boot()
		}
	case "started":
		if w.booted != nil {
			w.waitFor(300*time.Millisecond, w.isBooted)
		}
	case "pullstart":
		w.waitFor(short, func() bool { return w.inFetch(s.R) != nil })
	case "pullok", "pullfail":
		if f := w.inFetch(s.R); f != nil {
			select {
			case f.cmd <- strings.TrimPrefix(s.Op, "pull"):
			default:
			}
			w.waitFor(short, func() bool { return w.inFetch(s.R) != f })
		}
	case "swap":
		w.waitFor(short, func() bool { return w.served(s.R) == s.V })
	case "request":
		w.request(s.R)
	case "stop":
		w.stop(s.R)
	case "halt":
		w.waitFor(short, func() bool { return w.isStopped(s.R) })
	case "pause":
		time.Sleep(time.Duration(s.V) * time.Millisecond)
	case "hold":
		w.setHeld(s.V == 1)
	case "search":
		w.search(s.R, kinds[w.rnd(len(kinds))])
	case "snap":
		w.snap(150*time.Millisecond, false)
	case "commit":
		w.commit(s.R, s.V)
	case "fault":
		w.fault(s.R, s.V == 1)
	case "stick":
		w.stick(s.R)
	case "unstick":
		w.unstick()
	case "exit":
		if w.up1 && w.shutdown() {
			w.mu.Lock()
			w.gated = true
			w.mu.Unlock()
		}
	case "plant":
		w.plant(s.R, s.V)
	}
}

func (w *world) setHeld(on bool) {
	w.mu.Lock()
	w.quiet, w.held = on, on
	w.mu.Unlock()
}

func (w *world) isHeld() bool {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.held
}

// shutdown stops everything and sees the daemon off.
func (w *world) shutdown() bool {
	w.mu.Lock()
	w.gated = false
	w.mu.Unlock()
	rs := w.ok()
	w.rng.Shuffle(len(rs), func(i, j int) { rs[i], rs[j] = rs[j], rs[i] })
	for _, r := range rs {
		w.stop(r)
	}
	for _, r := range rs {
		if !w.waitFor(patience, func() bool { return w.isStopped(r) }) {
			w.stuck("waiting for repository %d to stop", r)
			return false
		}
	}
	// nothing may happen any more
	time.Sleep(30 * time.Millisecond)
	w.ops.Lock() // what is under way would end with the process
	defer w.ops.Unlock()
	w.mu.Lock()
	defer w.mu.Unlock()
	w.up1 = false
	w.searchers = nil
	w.need = map[int]int{}
	w.booted = nil
	if len(w.stuckDirs) > 0 {
		for _, p := range w.stuckDirs {
			os.Chmod(p, 0755)
		}
		w.stuckDirs = map[string]string{}
		w.log(ev{"e": "unstick"})
	}
	w.log(ev{"e": "exit"})
	return true
}

// drain lets everything come to rest and says what must be so then.
func (w *world) drain(final bool) bool {
	w.setHeld(false)
	w.mu.Lock()
	w.gated = false
	for _, f := range w.fetch {
		select {
		case f.cmd <- "ok":
		default:
		}
	}
	w.mu.Unlock()
	if w.booted == nil {
		w.boot()
	}
	if !w.waitFor(patience, w.isBooted) {
		w.stuck("startup did not complete")
		return false
	}
	if !w.up1 {
		return false
	}
	w.unstick()
	for r := range w.cfg.Url {
		w.fault(r+1, false)
	}
	running := []int{}
	for _, r := range w.ok() {
		w.mu.Lock()
		if !w.stopping[r] {
			running = append(running, r)
		}
		w.mu.Unlock()
	}
	// an accepted request is followed by a fetch that begins later
	for _, r := range running {
		if !w.waitFor(patience, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.nfetch[r] >= w.need[r]
		}) {
			w.stuck("no fetch followed the accepted requests for repository %d", r)
			return false
		}
	}
	for _, r := range running {
		if !w.cfg.Push[r-1] {
			w.request(r) // refused
			continue
		}
		w.mu.Lock()
		n := w.nfetch[r]
		w.mu.Unlock()
		w.request(r)
		if !w.cfg.Poll[r-1] && !w.waitFor(patience, func() bool {
			w.mu.Lock()
			defer w.mu.Unlock()
			return w.nfetch[r] > n
		}) {
			w.stuck("no fetch followed an accepted request for repository %d", r)
			return false
		}
	}
	// the newest revision becomes visible
	for _, r := range running {
		u := w.cfg.Url[r-1]
		if w.rnd(2) == 0 {
			w.mu.Lock()
			v := w.up[u]
			w.mu.Unlock()
			w.commit(u, v+1+w.rnd(2))
		}
	}
	for _, r := range running {
		u := w.cfg.Url[r-1]
		if !w.cfg.Poll[r-1] {
			if !w.cfg.Push[r-1] {
				continue
			}
			w.request(r)
		}
		if !w.waitFor(patience, func() bool {
			w.mu.Lock()
			v := w.up[u]
			w.mu.Unlock()
			return w.served(r) == v
		}) {
			w.stuck("repository %d does not show its remote's revision %d but %d", r, w.up[u], w.served(r))
			return false
		}
	}
	for _, r := range w.ok() {
		w.search(r, "all")
		w.search(r, kinds[w.rnd(len(kinds))])
		w.excluded(r)
	}
	w.snap(patience, true)
	return true
}

// plant leaves an index directory in the database directory before a start:
// a copy of the complete one of url u at revision v, or something incomplete.
func (w *world) plant(u, v int) {
	if w.booted != nil {
		return
	}
	p := filepath.Join(w.db, fmt.Sprintf("idx-%08x", w.rng.Uint32()))
	for _, d := range w.list() {
		if u > 0 && d["full"].(bool) && !w.torn[d["name"].(string)] && d["url"].(int) == u && d["rev"].(int) == v {
			copyTree(filepath.Join(w.db, d["name"].(string)), p)
			st := "full"
			if w.rnd(4) == 0 { // it only looks complete
				st = "torn"
				w.torn[filepath.Base(p)] = true
				switch t := filepath.Join(p, "tri"); w.rnd(3) {
				case 0:
					must(os.Remove(t))
				case 1:
					must(os.Truncate(t, int64(w.rnd(40))))
				default:
					fi, err := os.Stat(t)
					must(err)
					must(os.Truncate(t, fi.Size()-1-int64(w.rnd(20))))
				}
			}
			w.logl(ev{"e": "plant", "st": st, "u": u, "v": v})
			return
		}
	}
	if u > 0 {
		return
	}
	ds := w.list()
	switch k := w.rnd(4); {
	case k == 0 && len(ds) > 0:
		// a copy whose manifest was not written completely
		copyTree(filepath.Join(w.db, ds[w.rnd(len(ds))]["name"].(string)), p)
		if os.Truncate(filepath.Join(p, "metadata.gob"), int64(w.rnd(20))) != nil {
			must(os.WriteFile(filepath.Join(p, "metadata.gob"), nil, 0644))
		}
	case k == 1 && len(ds) > 0:
		copyTree(filepath.Join(w.db, ds[w.rnd(len(ds))]["name"].(string)), p)
		os.Remove(filepath.Join(p, "metadata.gob"))
	case k == 2:
		must(os.MkdirAll(filepath.Join(p, "raw", "sub"), 0755))
		must(os.WriteFile(filepath.Join(p, "tri"), []byte("csearch index 1\n"), 0644))
	default:
		must(os.MkdirAll(p, 0755))
	}
	w.logl(ev{"e": "plant", "st": "part", "u": 0, "v": -1})
}

// litter leaves things that are none of the daemon's business.
func (w *world) litter() {
	for k := w.rnd(4); k > 0; k-- {
		nm := []string{"notes.txt", "index-1", "vcs-foreign", "raw", ".idx-hidden", "xidx-1", "idx", "IDX-00"}[w.rnd(8)]
		p := filepath.Join(w.db, nm)
		if _, err := os.Lstat(p); err == nil {
			continue
		}
		if w.rnd(2) == 0 {
			must(os.WriteFile(p, []byte("keep\n"), 0644))
		} else {
			must(os.MkdirAll(filepath.Join(p, "raw"), 0755))
		}
		w.extra = append(w.extra, nm)
	}
}

func copyTree(src, dst string) {
	must(filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		q := filepath.Join(dst, rel)
		if fi.IsDir() {
			return os.MkdirAll(q, 0755)
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(q, b, 0644)
	}))
}

func (w *world) finish(rec *recorder) {
	w.mu.Lock()
	w.dead = true
	w.cond.Broadcast()
	evs := w.ev
	w.mu.Unlock()
	c := w.cfg
	if c.Bad == nil {
		c.Bad = []int{}
	}
	rec.put(map[string]interface{}{"id": w.id, "cfg": c, "ev": evs})
	for _, p := range w.stuckDirs {
		os.Chmod(p, 0755)
	}
}

func (w *world) clients(n int, stop chan bool, wg *sync.WaitGroup) {
	for k := 0; k < n; k++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(int64(w.rnd(1 << 30))))
		go func() {
			defer wg.Done()
			for {
				select {
				case <-stop:
					return
				case <-time.After(time.Duration(5+r.Intn(70)) * time.Millisecond):
				}
				w.mu.Lock()
				full := len(w.ev) > w.cap || w.quiet
				w.mu.Unlock()
				rs := w.ok()
				if full || len(rs) == 0 {
					continue
				}
				x := rs[r.Intn(len(rs))]
				if r.Intn(3) == 0 {
					w.excluded(x)
				} else {
					w.search(x, kinds[r.Intn(len(kinds))])
				}
			}
		}()
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for {
			select {
			case <-stop:
				return
			case <-time.After(4 * time.Millisecond):
				w.busy()
			}
		}
	}()
}

func lifeScenario(id string, steps []step, rec *recorder, sd int64) {
	if len(steps) == 0 || steps[0].Op != "cfg" {
		die("scenario without configuration")
	}
	dir := filepath.Join(outDir, "w"+id)
	steps[0].Naming = int(uint64(sd*2654435761) >> 7 % namings)
	w := newWorld(id, dir, steps[0].lifeCfg, sd)
	defer os.RemoveAll(dir)
	defer w.finish(rec)
	w.gated = true
	w.litter()
	stop := make(chan bool)
	var wg sync.WaitGroup
	w.clients(2, stop, &wg)
	end := func() { close(stop); wg.Wait() }
	for _, s := range steps[1:] {
		if len(w.ev) > w.cap && s.Op != "boot" {
			break
		}
		w.do(s)
	}
	ok := w.drain(true)
	end()
	if !ok {
		return
	}
	if !w.shutdown() {
		return
	}
	if w.rng.Intn(3) > 0 {
		// what was left is reused
		if w.rng.Intn(2) == 0 {
			for u := range w.up {
				if w.rng.Intn(2) == 0 {
					w.commit(u, w.up[u]+1)
				}
			}
		}
		for k := w.rnd(3); k > 0; k-- {
			w.plant(w.cfg.Url[w.rnd(len(w.cfg.Url))]*w.rnd(2), 0+w.up[1])
		}
		if w.drain(true) {
			w.shutdown()
		}
	}
}

func lifeCommand(args []string) {
	log.SetOutput(io.Discard)
	null, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	os.Stdout = null // the code reports on its memory there
	f, err := os.Open(args[0])
	must(err)
	defer f.Close()
	budget, err := strconv.Atoi(args[1])
	must(err)
	var all [][]step
	dec := json.NewDecoder(f)
	for {
		var s []step
		if err := dec.Decode(&s); err == io.EOF {
			break
		} else {
			must(err)
		}
		all = append(all, s)
	}
	stop := schedStart(seed, 8, 20*time.Millisecond, 300*time.Millisecond)
	defer stop()
	rec := newRecorder("recs.ndjson")
	end := time.Now().Add(time.Duration(budget) * time.Second)
	var mu sync.Mutex
	done := 0
	parallel(len(all), 32, func(i int) {
		if time.Now().After(end) {
			return
		}
		lifeScenario(fmt.Sprintf("s%d", i), all[i], rec, seed*7919+int64(i))
		mu.Lock()
		done++
		mu.Unlock()
	})
	rec.close()
	writeJSON("stats.json", map[string]int{"scenarios": done, "given": len(all)})
}
