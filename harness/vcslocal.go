package main

// Replays what TLC made up about local directories into real ones.

import (
	"encoding/json"
	"fmt"

	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
	"github.com/hound-search/hound/vcs"
)

// localEntry is the content number c of a file: from 4 on they are long,
// 4 and 5 differ at the end only, 6 and 7 in the midst.
func localContent(c int) []byte {
	switch {
	case c == 0:
		return nil
	case c < 4:
		return []byte(fmt.Sprintf("c%d\n", c))
	}
	same := strings.Repeat("the same line over and over\n", 55000)
	if c < 6 {
		return []byte("big\n" + same + same + fmt.Sprintf("c%d\n", c))
	}
	return []byte("big\n" + same + fmt.Sprintf("c%d\n", c) + same)
}

type localWorld struct {
	dir, src, wd, url string
	tmp               int
	when              time.Time
	gone              bool
}

func (w *localWorld) path(p string) string { return filepath.Join(w.src, gitPaths.Replace(p)) }

// install puts what make creates at a path in one step.
func (w *localWorld) install(p string, make func(string)) {
	w.tmp++
	t := filepath.Join(w.dir, fmt.Sprintf("tmp%d", w.tmp))
	make(t)
	full := w.path(p)
	if fi, err := os.Lstat(full); err == nil && fi.IsDir() {
		must(os.RemoveAll(full)) // it has no files
	}
	for d := filepath.Dir(full); len(d) > len(w.src); d = filepath.Dir(d) {
		if fi, err := os.Lstat(d); err == nil && !fi.IsDir() {
			die("%s is in the way of %s", d, full)
		}
	}
	must(os.MkdirAll(filepath.Dir(full), 0755))
	must(os.Rename(t, full))
}

func (w *localWorld) do(e map[string]interface{}) {
	str := func(k string) string { s, _ := e[k].(string); return s }
	switch e["op"] {
	case "put":
		c := int(e["c"].(float64))
		w.install(str("p"), func(t string) {
			switch str("k") {
			case "file":
				must(os.WriteFile(t, localContent(c), 0644))
				must(os.Chtimes(t, w.when, w.when))
			case "link":
				must(os.Symlink([]string{"nowhere", "a", "d", ".", "/etc/hostname"}[c], t))
			case "fifo":
				must(syscall.Mkfifo(t, 0644))
			}
		})
	case "remove":
		if err := os.Remove(w.path(str("p"))); err != nil && !os.IsNotExist(err) {
			// a directory then, or below a file
			if fi, e := os.Lstat(w.path(str("p"))); e == nil && !fi.IsDir() {
				die("%v", err)
			}
		}
	case "move":
		t := filepath.Join(w.dir, "moving")
		must(os.Rename(w.path(str("p")), t))
		w.install(str("q"), func(n string) { must(os.Rename(t, n)) })
	case "swap":
		t := filepath.Join(w.dir, "moving")
		must(os.Rename(w.path(str("p")), t))
		must(os.Rename(w.path(str("q")), w.path(str("p"))))
		must(os.Rename(t, w.path(str("q"))))
	case "touch":
		w.when = w.when.Add(time.Hour)
		filepath.Walk(w.src, func(p string, fi os.FileInfo, err error) error {
			if err == nil && fi.Mode()&os.ModeSymlink == 0 {
				os.Chtimes(p, w.when, w.when)
			}
			return nil
		})
	case "there":
		if x := e["x"].(bool); x == w.gone {
			if x {
				must(os.Rename(w.src+".gone", w.src))
			} else {
				must(os.Rename(w.src, w.src+".gone"))
			}
			w.gone = !x
		}
	}
}

// within tells whether f came back in time.
func within(f func()) bool {
	done := make(chan bool)
	go func() { f(); close(done) }()
	select {
	case <-done:
		return true
	case <-time.After(15 * time.Second):
		return false
	}
}

func linesOf(ms []*index.FileMatch) []gentry {
	out := []gentry{}
	for _, f := range ms {
		for _, m := range f.Matches {
			e := gentry{P: gitPathsBack.Replace(f.Filename), C: -1}
			fmt.Sscanf(m.Line, "c%d", &e.C)
			out = append(out, e)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].P < out[j].P || out[i].P == out[j].P && out[i].C < out[j].C })
	return out
}

type lineEntry struct {
	P string `json:"p"`
	C int    `json:"c"`
}

func lineEntries(gs []gentry) []lineEntry {
	out := []lineEntry{}
	for _, g := range gs {
		out = append(out, lineEntry{g.P, g.C})
	}
	return out
}

const localPattern = "^c[0-9]$"

func localURL(form, dir, rel, src string) string {
	switch form {
	case "abs":
		return "file://" + src
	case "slash":
		return "file://" + src + "/"
	case "dots":
		return "file://" + dir + "/./nothing/../src"
	case "rel":
		return "file://" + rel + "/src"
	case "via":
		return "file://" + dir + "/via"
	case "http":
		return "http://localhost" + src
	case "plain":
		return src
	case "upper":
		return "FILE://" + src
	case "one":
		return "file:" + src
	}
	return ""
}

// counting is the local driver, with its pulls counted.
type counting struct {
	vcs.Driver
	n *int64
}

func (c *counting) Pull(dir string) (string, error) {
	atomic.AddInt64(c.n, 1)
	return c.Driver.Pull(dir)
}

var countWorlds [4096]int64

func cmdLocal(args []string) {
	vcs.Register(func(b []byte) (vcs.Driver, error) {
		var c struct {
			World int `json:"world"`
		}
		must(json.Unmarshal(b, &c))
		w, err := vcs.New("local", b)
		if err != nil {
			return nil, err
		}
		return &counting{w.Driver, &countWorlds[c.World]}, nil
	}, "counted-local")
	rec := newRecorder("recs.ndjson")
	base, err := os.MkdirTemp(args[1], "local")
	must(err)
	must(os.Chdir(base))
	b, err := os.ReadFile(args[0])
	must(err)
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	var fetches, serves int64
	accepted := map[string]bool{"abs": true, "rel": true, "via": true, "slash": true, "dots": true}
	parallel(len(lines), 16, func(i int) {
		var h []map[string]interface{}
		must(json.Unmarshal([]byte(lines[i]), &h))
		c := h[0]
		rel := fmt.Sprintf("s%d", i)
		dir := filepath.Join(base, rel)
		w := &localWorld{dir: dir, src: filepath.Join(dir, "src"), when: time.Unix(1700000000, 0)}
		db := filepath.Join(dir, "db")
		must(os.MkdirAll(db, 0755))
		must(os.MkdirAll(w.src, 0755))
		must(os.Mkdir(filepath.Join(dir, "nothing"), 0755))
		must(os.Symlink("src", filepath.Join(dir, "via")))
		form := c["form"].(string)
		w.url = localURL(form, dir, rel, w.src)
		w.wd = filepath.Join(db, "vcs-"+c["name"].(string))
		conf := map[string]interface{}{"world": i}
		if c["watch"] == true {
			conf["watch-changes"] = true
		} else if i%3 == 0 {
			conf["watch-changes"] = false
		}
		if l, _ := c["ignored"].([]interface{}); len(l) > 0 {
			conf["ignored-files"] = l
		} else {
			c["ignored"] = []int{}
		}
		cb, _ := json.Marshal(conf)
		id := fmt.Sprintf("l%d", i)
		if c["watch"] == true && accepted[form] && i%2 == 0 {
			atomic.AddInt64(&serves, w.live(rec, id, i, db, h, cb))
		} else {
			atomic.AddInt64(&fetches, w.driven(rec, id, h, cb))
		}
		os.RemoveAll(dir)
	})
	rec.close()
	writeJSON("stats.json", map[string]int64{"fetches": fetches, "changes_served": serves})
}

// driven calls the driver itself, and then indexes what it linked.
func (w *localWorld) driven(rec *recorder, id string, h []map[string]interface{}, conf []byte) int64 {
	var n int64
	d, err := vcs.New("local", conf)
	sut(err, "making a local driver for %s", conf)
	links := map[string]int{}
	for _, e := range h[1:] {
		delete(e, "k0")
		if e["op"] != "fetch" {
			w.do(e)
			continue
		}
		n++
		var rev string
		var err error
		if !within(func() {
			rev, err = d.PullOrClone(w.wd, w.url)
			if err == nil && n%2 == 0 {
				// the same by itself
				if r, err2 := d.HeadRev(w.wd); err2 != nil || r != rev {
					rev = fmt.Sprintf("%s, but HeadRev says %s (%v)", rev, r, err2)
				}
			}
		}) {
			e["err"], e["rev"], e["link"], e["lines"] = false, "no answer", 0, []int{}
			for i, x := range h {
				if i > 0 && x["op"] == "fetch" && x["lines"] == nil {
					h = h[:i]
					break
				}
			}
			break
		}
		e["err"], e["rev"], e["link"], e["lines"] = err != nil, rev, 0, []int{}
		if err != nil {
			e["why"] = err.Error()
		}
		if fi, err := os.Lstat(w.wd); err == nil {
			k := fmt.Sprint(fi.Sys().(*syscall.Stat_t).Ino, fi.ModTime().UnixNano())
			if links[k] == 0 {
				links[k] = len(links) + 1
			}
			e["link"] = links[k]
		}
		if err == nil && !w.gone {
			dst := filepath.Join(w.dir, fmt.Sprintf("idx%d", n))
			ref, err := index.Build(&index.IndexOptions{SpecialFiles: d.SpecialFiles()}, dst, w.wd, w.url, rev)
			if err != nil {
				e["lines"] = []string{"indexing: " + err.Error()}
				continue
			}
			ix, err := ref.Open()
			sut(err, "opening the index built")
			r, err := ix.Search(localPattern, &index.SearchOptions{Limit: 1000, MaxResults: 1000})
			sut(err, "searching for %s", localPattern)
			e["lines"] = lineEntries(linesOf(r.Matches))
			ix.Close()
			os.RemoveAll(dst)
		}
	}
	rec.put(map[string]interface{}{"id": id, "ev": h})
	return n
}

// live has a real searcher watch the directory.
func (w *localWorld) live(rec *recorder, id string, world int, db string, h []map[string]interface{}, conf []byte) int64 {
	var n int64
	m := config.SecretMessage(conf)
	yes, no := true, false
	cfg := func() *config.Config {
		return &config.Config{DbPath: db, MaxConcurrentIndexers: 1, ResultLimit: 5000, Repos: map[string]*config.Repo{
			"r": {Url: w.url, Vcs: "counted-local", VcsConfigMessage: &m, MsBetweenPolls: 4, EnablePollUpdates: &yes, EnablePushUpdates: &no, UrlPattern: &config.UrlPattern{}}}}
	}
	var s *searcher.Searcher
	boot := func() string {
		var ss map[string]*searcher.Searcher
		var errs map[string]error
		var err error
		if !within(func() { ss, errs, err = searcher.MakeAll(cfg()) }) {
			return "no answer"
		}
		if err != nil {
			return err.Error()
		}
		if errs["r"] != nil {
			return errs["r"].Error()
		}
		s = ss["r"]
		return ""
	}
	dirs := func() string {
		l, _ := filepath.Glob(filepath.Join(db, "idx-*"))
		return strings.Join(l, " ")
	}
	before := ""
	serve := func() map[string]interface{} {
		n++
		e := map[string]interface{}{"op": "serve", "rev": "", "lines": []int{}, "again": true}
		if s == nil {
			return e
		}
		// two polls later, one of which began after the last change, everything is done
		at := atomic.LoadInt64(&countWorlds[world])
		for end := time.Now().Add(20 * time.Second); atomic.LoadInt64(&countWorlds[world]) < at+3 && time.Now().Before(end); {
			time.Sleep(time.Millisecond)
		}
		r, err := s.Search(localPattern, &index.SearchOptions{Limit: 1000, MaxResults: 1000})
		if err != nil {
			e["why"] = err.Error()
			return e
		}
		now := dirs()
		e["rev"], e["lines"], e["again"] = r.Revision, lineEntries(linesOf(r.Matches)), now != before
		before = now
		return e
	}
	out := []map[string]interface{}{h[0]}
	if why := boot(); why != "" {
		out = append(out, map[string]interface{}{"op": "serve", "rev": "", "lines": []int{}, "again": true, "why": why})
	} else {
		out = append(out, serve())
		for _, e := range h[1:] {
			if e["op"] == "there" || e["op"] == "fetch" || e["p"] == "n\nl" {
				continue
			}
			if e["op"] == "put" || e["op"] == "move" {
				// what has no files must not be in the way, so that one step will do
				os.MkdirAll(filepath.Dir(w.path(e["p"].(string))), 0755)
			}
			w.do(e)
			out = append(out, e)
			if e["op"] == "swap" || e["op"] == "move" {
				// not one step: what is between may have been seen
				last := serve()
				last["op"] = "settle"
				out = append(out, last)
				continue
			}
			if e["op"] == "touch" {
				why := ""
				if !within(func() { s.Stop(); s.Wait() }) {
					why = "does not stop"
				} else {
					s = nil
					why = boot()
				}
				if why != "" {
					out = append(out, map[string]interface{}{"op": "serve", "rev": "", "lines": []int{}, "again": true, "why": why})
					s = nil
					break
				}
			}
			out = append(out, serve())
		}
	}
	if s != nil && !within(func() { s.Stop(); s.Wait() }) {
		out = append(out, map[string]interface{}{"op": "serve", "rev": "", "lines": []int{}, "again": true, "why": "does not stop"})
	}
	rec.put(map[string]interface{}{"id": id, "ev": out})
	return n
}

func init() { commands["local"] = cmdLocal }
