package main

// Replays what TLC made up about git repositories into real ones.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/vcs"
)

type gentry struct {
	P string `json:"p"`
	K string `json:"k"`
	C int    `json:"c"`
}

type gitWorld struct {
	dir, remote, wd, url string
	hash                 []string // of commit k+1
	num                  map[string]int
	n                    int
}

func gitEnv(home string) {
	for _, v := range os.Environ() {
		if strings.HasPrefix(v, "GIT_") {
			os.Unsetenv(strings.SplitN(v, "=", 2)[0])
		}
	}
	os.Setenv("GIT_CONFIG_GLOBAL", "/dev/null")
	os.Setenv("GIT_CONFIG_SYSTEM", "/dev/null")
	os.Setenv("GIT_TERMINAL_PROMPT", "0")
	os.Setenv("HOME", home)
	os.Setenv("LC_ALL", "C")
}

// the paths of the specification are plain ones
var gitPaths = strings.NewReplacer("e b", "é b")
var gitPathsBack = strings.NewReplacer("é b", "e b")

func contentOf(c int) string { return fmt.Sprintf("c%d\n", c) }

// commit makes a commit with just the tree, on branch b.
func (g *gitWorld) commit(b string, tree []gentry, content func(gentry) []byte, parent string) string {
	var in bytes.Buffer
	g.n++
	msg := fmt.Sprintf("commit %d", g.n)
	fmt.Fprintf(&in, "commit refs/made/%d\nmark :1\ncommitter a <a@b> %d +0000\ndata %d\n%s\n", g.n, 1700000000+g.n, len(msg), msg)
	if parent != "" {
		fmt.Fprintf(&in, "from %s\n", parent)
	}
	in.WriteString("deleteall\n")
	for _, e := range tree {
		p := `"` + strings.NewReplacer(`\`, `\\`, `"`, `\"`, "\n", `\n`).Replace(gitPaths.Replace(e.P)) + `"`
		switch e.K {
		case "link":
			t := fmt.Sprintf("t%d", e.C)
			fmt.Fprintf(&in, "M 120000 inline %s\ndata %d\n%s\n", p, len(t), t)
		default:
			d := content(e)
			fmt.Fprintf(&in, "M %s inline %s\ndata %d\n%s\n", map[string]string{"file": "100644", "exec": "100755"}[e.K], p, len(d), d)
		}
	}
	fmt.Fprintf(&in, "reset refs/heads/%s\nfrom :1\n\ndone\n", b)
	marks := filepath.Join(g.dir, "marks")
	c := exec.Command("git", "fast-import", "--quiet", "--force", "--done", "--export-marks="+marks)
	c.Dir = g.remote
	c.Stdin = &in
	if out, err := c.CombinedOutput(); err != nil {
		die("fast-import: %v\n%s", err, out)
	}
	m, err := os.ReadFile(marks)
	must(err)
	h := strings.TrimSpace(strings.TrimPrefix(string(m), ":1 "))
	if len(h) != 40 {
		die("fast-import made %q", m)
	}
	git(g.remote, "update-ref", "-d", fmt.Sprintf("refs/made/%d", g.n))
	g.hash = append(g.hash, h)
	g.num[h] = len(g.hash)
	return h
}

func newGitWorld(dir, branch string) *gitWorld {
	g := &gitWorld{dir: dir, remote: filepath.Join(dir, "remote.git"), wd: filepath.Join(dir, "vcs-work"), num: map[string]int{}}
	must(os.MkdirAll(dir, 0755))
	git(dir, "init", "-q", "--bare", "-b", branch, "remote.git")
	g.url = "file://" + g.remote
	return g
}

func (g *gitWorld) tracked() map[string]bool {
	out := map[string]bool{}
	c := exec.Command("git", "ls-files", "-z")
	c.Dir = g.wd
	b, _ := c.Output()
	for _, p := range strings.Split(string(b), "\x00") {
		if p != "" {
			out[p] = true
		}
	}
	return out
}

// tree is what there is in the working copy.
func (g *gitWorld) tree() []gentry {
	out := []gentry{}
	filepath.Walk(g.wd, func(p string, fi os.FileInfo, err error) error {
		if err != nil || p == g.wd {
			return nil
		}
		rel, _ := filepath.Rel(g.wd, p)
		if rel == ".git" {
			return filepath.SkipDir
		}
		if fi.IsDir() {
			return nil
		}
		e := gentry{P: gitPathsBack.Replace(rel), K: "file", C: -1}
		if fi.Mode()&os.ModeSymlink != 0 {
			e.K = "link"
			t, _ := os.Readlink(p)
			fmt.Sscanf(t, "t%d", &e.C)
		} else {
			if fi.Mode()&0111 != 0 {
				e.K = "exec"
			}
			b, _ := os.ReadFile(p)
			var c int
			if _, err := fmt.Sscanf(string(b), "c%d\n", &c); err == nil && string(b) == contentOf(c) {
				e.C = c
			}
		}
		out = append(out, e)
		return nil
	})
	sort.Slice(out, func(i, j int) bool { return out[i].P < out[j].P })
	return out
}

// dirty changes something in the working copy and tells which new files git does not know.
func (g *gitWorld) dirty(p, what string) []string {
	p = gitPaths.Replace(p)
	full := filepath.Join(g.wd, p)
	known := g.tracked()
	extra := []string{}
	put := func(rel string) {
		if !known[rel] {
			extra = append(extra, gitPathsBack.Replace(rel))
		}
	}
	for d := filepath.Dir(full); d != g.wd; d = filepath.Dir(d) {
		if fi, err := os.Lstat(d); err == nil && !fi.IsDir() {
			return extra
		}
	}
	must(os.MkdirAll(filepath.Dir(full), 0755))
	fi, err := os.Lstat(full)
	switch what {
	case "modify":
		if err == nil && fi.Mode().IsRegular() {
			must(os.WriteFile(full, []byte("m1\n"), 0644))
		}
	case "remove":
		must(os.RemoveAll(full))
	case "exec":
		if err == nil && fi.Mode().IsRegular() {
			must(os.Chmod(full, fi.Mode()^0111))
		}
	case "dir":
		if err == nil && !fi.IsDir() {
			must(os.Remove(full))
		}
		must(os.MkdirAll(full, 0755))
		if u, err := os.Lstat(filepath.Join(full, "u")); err == nil && u.IsDir() {
			return extra
		}
		must(os.WriteFile(filepath.Join(full, "u"), []byte("c1\n"), 0644))
		put(filepath.Join(p, "u"))
	case "link":
		must(os.RemoveAll(full))
		must(os.Symlink("nowhere", full))
		put(p)
	case "new":
		if err == nil && fi.IsDir() {
			return extra
		}
		must(os.RemoveAll(full))
		must(os.WriteFile(full, []byte("c2\n"), 0755))
		put(p)
	}
	return extra
}

func cmdGit(args []string) {
	rec := newRecorder("recs.ndjson")
	base, err := os.MkdirTemp(args[1], "git")
	must(err)
	gitEnv(base)
	b, err := os.ReadFile(args[0])
	must(err)
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	fetches := 0
	parallel(len(lines), 8, func(i int) {
		var h []map[string]interface{}
		must(json.Unmarshal([]byte(lines[i]), &h))
		c := h[0]
		g := newGitWorld(filepath.Join(base, fmt.Sprintf("s%d", i)), c["b"].(string))
		ident := func(e gentry) []byte { return []byte(contentOf(e.C)) }
		g.commit(c["b"].(string), nil, ident, "")
		conf := map[string]interface{}{}
		if c["ref"] != "" {
			conf["ref"] = c["ref"]
		}
		if c["detect"] == true {
			conf["detect-ref"] = true
		}
		cb, _ := json.Marshal(conf)
		if len(conf) == 0 && i%2 == 0 {
			cb = nil
		}
		w, err := vcs.New("git", cb)
		sut(err, "making a git driver for %s", cb)
		ref := func(x interface{}) string { return "refs/heads/" + x.(string) }
		there := true
		at := func(f func()) { // on the remote, wherever it is
			if !there {
				must(os.Rename(g.remote+".gone", g.remote))
			}
			f()
			if !there {
				must(os.Rename(g.remote, g.remote+".gone"))
			}
		}
		for _, e := range h[1:] {
			switch e["op"] {
			case "commit":
				at(func() {
					var tree []gentry
					b, _ := json.Marshal(e["tree"])
					must(json.Unmarshal(b, &tree))
					if len(tree) == 0 {
						e["tree"] = []int{}
					}
					parent := ""
					if e["force"] != true {
						o := exec.Command("git", "rev-parse", "-q", "--verify", ref(e["b"]))
						o.Dir = g.remote
						if b, err := o.Output(); err == nil {
							parent = strings.TrimSpace(string(b))
						}
					}
					g.commit(e["b"].(string), tree, ident, parent)
				})
			case "point":
				at(func() { git(g.remote, "update-ref", ref(e["b"]), g.hash[int(e["c"].(float64))-1]) })
			case "delete":
				at(func() { git(g.remote, "update-ref", "-d", ref(e["b"])) })
			case "rename":
				at(func() {
					x := git(g.remote, "rev-parse", ref(e["b"]))
					cur := git(g.remote, "symbolic-ref", "HEAD")
					git(g.remote, "update-ref", "-d", ref(e["b"]))
					git(g.remote, "update-ref", ref(e["to"]), x)
					if cur == ref(e["b"]) {
						git(g.remote, "symbolic-ref", "HEAD", ref(e["to"]))
					}
				})
			case "head":
				at(func() { git(g.remote, "symbolic-ref", "HEAD", ref(e["b"])) })
			case "tag":
				at(func() {
					n := "refs/tags/" + e["b"].(string)
					x := g.hash[int(e["c"].(float64))-1]
					git(g.remote, "update-ref", n, x)
				})
			case "up":
				if x := e["x"].(bool); x != there {
					if x {
						must(os.Rename(g.remote+".gone", g.remote))
					} else {
						must(os.Rename(g.remote, g.remote+".gone"))
					}
					there = x
				}
			case "dirty":
				if fi, err := os.Stat(g.wd); err == nil && fi.IsDir() {
					e["extra"] = g.dirty(e["p"].(string), e["w"].(string))
				} else {
					e["op"] = "nothing"
				}
			case "stage":
				if _, err := os.Stat(g.wd); err == nil {
					git(g.wd, "add", "-A")
				} else {
					e["op"] = "nothing"
				}
			case "fetch":
				rev, err := w.PullOrClone(g.wd, g.url)
				e["err"] = err != nil
				e["rev"] = 0
				if n, ok := g.num[rev]; ok {
					e["rev"] = n
				}
				e["hash"] = rev
				_, serr := os.Stat(g.wd)
				e["dir"] = serr == nil
				e["got"] = []int{}
				if serr == nil {
					e["got"] = g.tree()
				}
				e["tree"] = nil
				rec.mu.Lock()
				fetches++
				rec.mu.Unlock()
			}
			delete(e, "k")
		}
		kept := []interface{}{}
		for _, e := range h {
			if e["op"] != "nothing" {
				if e["op"] != "commit" {
					delete(e, "tree")
				}
				kept = append(kept, e)
			}
		}
		must(os.RemoveAll(g.dir))
		rec.put(map[string]interface{}{"id": fmt.Sprintf("g%d", i), "ev": kept})
	})
	rec.close()
	writeJSON("stats.json", map[string]int{"fetches": fetches})
}

func init() { commands["git"] = cmdGit }
