package main

// Stand-ins for the command line tools of version control systems.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"syscall"

	"github.com/hound-search/hound/vcs"
)

// toolCall is a call of a tool as the tool saw it.
type toolCall struct {
	Cwd    string   `json:"cwd"`
	Argv   []string `json:"argv"`
	Exit   int      `json:"exit"`
	Shown  string   `json:"shown"`
	What   string   `json:"what"`
	Target string   `json:"target"`
	Of     string   `json:"of"` // the revision that was printed
}

// toolPlan is what the tool is to do.
type toolPlan struct {
	Remote string
	Other  string // a newer revision on another branch, if any (Mercurial)
	Fail   int    // which call fails (from 1)
	How    string // "before", "after", "silent", "kill"
	Pre    string // around what is printed
	Post   string
	Noise  string // on standard error
}

func nonFlags(argv []string) (out []string) {
	valued := map[string]bool{"--username": true, "--password": true, "-r": true, "--template": true, "--rev": true, "-T": true, "--config-option": true}
	for k := 0; k < len(argv); k++ {
		if valued[argv[k]] {
			k++
		} else if !strings.HasPrefix(argv[k], "-") || argv[k] == os.Getenv("TOOLURL") {
			out = append(out, argv[k])
		}
	}
	return
}

// toolMain is the stand-in: svn, svnversion, hg and bzr.
func toolMain(name string) {
	st := os.Getenv("TOOLSTATE")
	var p toolPlan
	b, err := os.ReadFile(filepath.Join(st, "plan"))
	must(err)
	must(json.Unmarshal(b, &p))
	cwd, err := os.Getwd()
	must(err)
	if e, err := filepath.EvalSymlinks(cwd); err == nil {
		cwd = e
	}
	c := toolCall{Cwd: cwd, Argv: append([]string{}, os.Args[1:]...), What: "unknown"}
	logp := filepath.Join(st, "log")
	old, _ := os.ReadFile(logp)
	nth := 1 + strings.Count(string(old), "\n")
	has := func(x ...string) bool {
		for _, a := range c.Argv {
			for _, y := range x {
				if a == y {
					return true
				}
			}
		}
		return false
	}
	sub := ""
	args := nonFlags(c.Argv)
	if len(args) > 0 {
		sub = args[0]
	}
	switch name + " " + sub {
	case "svn checkout", "svn co", "hg clone", "bzr branch", "bzr clone", "bzr get":
		c.What = "clone"
		c.Target = args[len(args)-1]
		if !filepath.IsAbs(c.Target) {
			c.Target = filepath.Join(cwd, c.Target)
		}
	case "svn update", "svn up":
		c.What = "both"
	case "hg pull":
		c.What = "pull"
		if has("-u", "--update") {
			c.What = "both"
		}
	case "hg update", "hg up", "hg checkout":
		c.What = "update"
	case "bzr pull":
		c.What = "both"
	case "hg log", "hg id", "hg identify", "hg parent", "hg parents", "bzr revno":
		c.What = "rev"
	}
	if name == "svnversion" {
		c.What = "rev"
	}
	dir := cwd
	if c.What == "clone" {
		dir = c.Target
	}
	read := func(n string) string {
		b, _ := os.ReadFile(filepath.Join(dir, n))
		return string(b)
	}
	write := func(n, v string) { must(os.WriteFile(filepath.Join(dir, n), []byte(v), 0644)) }
	fail := p.Fail == nth
	out := ""
	if !fail || p.How == "after" || p.How == "kill" {
		switch c.What {
		case "clone":
			if os.Mkdir(dir, 0755) != nil {
				c.Exit = 1
				break
			}
			write(".at", p.Remote)
			write(".got", p.Remote)
			write(".tip", p.Remote+p.Other)
		default:
			if read(".at") == "" {
				c.Exit = 255
				break
			}
			if c.What == "pull" || c.What == "both" {
				write(".got", p.Remote)
				write(".tip", p.Remote+p.Other)
			}
			if c.What == "update" || c.What == "both" {
				write(".at", read(".got"))
			}
			if c.What == "rev" {
				v := read(".at")
				if sub == "log" && !has(".") || has("tip") {
					v = read(".tip")
				}
				c.Of = v
				out = p.Pre + v + p.Post
			} else {
				out = "Fetched revision 99999.\n"
			}
		}
	}
	if fail {
		c.Exit = 1 + nth
		if p.How == "kill" {
			c.Exit = 137
		}
	}
	c.Shown = strings.TrimSpace(out)
	l, err := json.Marshal(c)
	must(err)
	f, err := os.OpenFile(logp, os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0644)
	must(err)
	f.Write(append(l, '\n'))
	f.Close()
	os.Stderr.WriteString(p.Noise)
	os.Stdout.WriteString(out)
	if fail && p.How == "kill" {
		syscall.Kill(os.Getpid(), syscall.SIGKILL)
	}
	os.Exit(c.Exit)
}

func cmdTools(args []string) {
	rec := newRecorder("recs.ndjson")
	rng := newRand(28)
	self, err := os.Executable()
	must(err)
	base, err := os.MkdirTemp(outDir, "tools")
	must(err)
	base, err = filepath.EvalSymlinks(base)
	must(err)
	bin := filepath.Join(base, "bin")
	must(os.MkdirAll(bin, 0755))
	for _, n := range []string{"svn", "svnversion", "hg", "bzr"} {
		must(os.Symlink(self, filepath.Join(bin, n)))
	}
	path := os.Getenv("PATH")
	strs := []string{"", "user", "pass word", "-x", "--password", "é", "a=b", "\"q'", "$(touch x)", "`id`;", "*", "a\tb", "\\", "--username", "x\ny", "%20", "#", "<&>"}
	urls := []string{"http://h/r", "file:///a b", "ssh://u@h/r?x=y&z", "-u", "é", "http://h/r/", "HTTP://H/R%20x/", "http://h/$(id)", "svn://h/r@12", "h:r"}
	for i := 0; i < pick(250, 3000); i++ {
		kind := []string{"svn", "hg", "bzr"}[rng.Intn(3)]
		name := kind
		if rng.Intn(3) == 0 {
			name = map[string]string{"svn": "subversion", "hg": "mercurial", "bzr": "bzr"}[kind]
		}
		user, pass := strs[rng.Intn(len(strs))], strs[rng.Intn(len(strs))]
		var conf []byte
		switch rng.Intn(4) {
		case 0:
			user, pass = "", ""
			if rng.Intn(2) == 0 {
				conf = []byte("{}")
			}
		default:
			m := map[string]interface{}{}
			if user != "" || rng.Intn(2) == 0 {
				m["username"] = user
			}
			if pass != "" || rng.Intn(2) == 0 {
				m["password"] = pass
			}
			conf, _ = json.Marshal(m)
		}
		url := urls[rng.Intn(len(urls))]
		w, err := vcs.New(name, conf)
		sut(err, "making a %s driver for %s", name, conf)
		home := filepath.Join(base, fmt.Sprintf("h%d", i))
		state := filepath.Join(base, fmt.Sprintf("s%d", i))
		must(os.MkdirAll(home, 0755))
		must(os.MkdirAll(state, 0755))
		dir := filepath.Join(home, []string{"vcs-0123", "a b", "é", "vcs-d", "x"}[rng.Intn(5)])
		os.Setenv("TOOLSTATE", state)
		os.Setenv("TOOLURL", url)
		at := func() string {
			b, err := os.ReadFile(filepath.Join(dir, ".at"))
			if err != nil {
				if _, err := os.Stat(dir); err != nil {
					return "none"
				}
				return "broken"
			}
			return string(b)
		}
		steps := []interface{}{}
		remote := 0
		n := 1 + rng.Intn(5)
		for k := 0; k < n; k++ {
			if rng.Intn(3) > 0 {
				remote++
			}
			p := toolPlan{Remote: fmt.Sprintf("%s%d", []string{"r", "", "7:", "a1f"}[i%4], remote)}
			if kind == "hg" && rng.Intn(3) == 0 {
				p.Other = "other"
			}
			if rng.Intn(3) == 0 {
				p.Fail = 1 + rng.Intn(2)
				p.How = []string{"before", "after", "silent", "kill"}[rng.Intn(4)]
			}
			p.Pre, p.Post = []string{"", "", "\n", "  "}[rng.Intn(4)], []string{"", "\n", "\r\n", "M\n", "\n\n"}[rng.Intn(5)]
			p.Noise = []string{"", "", "warning: 12345\n"}[rng.Intn(3)]
			b, _ := json.Marshal(p)
			must(os.WriteFile(filepath.Join(state, "plan"), b, 0644))
			os.Remove(filepath.Join(state, "log"))
			missing := rng.Intn(12) == 0
			if missing {
				os.Setenv("PATH", state)
			} else {
				os.Setenv("PATH", bin+":"+path)
			}
			before := at()
			op := "fetch"
			var rev string
			if before != "none" && rng.Intn(4) == 0 {
				op = "rev"
				rev, err = w.HeadRev(dir)
			} else {
				rev, err = w.PullOrClone(dir, url)
			}
			os.Setenv("PATH", path)
			calls := []toolCall{}
			lb, _ := os.ReadFile(filepath.Join(state, "log"))
			for _, l := range strings.Split(strings.TrimRight(string(lb), "\n"), "\n") {
				if l == "" {
					continue
				}
				var c toolCall
				must(json.Unmarshal([]byte(l), &c))
				calls = append(calls, c)
			}
			if missing && len(calls) == 0 {
				calls = append(calls, toolCall{Exit: -1, What: "missing", Argv: []string{}})
			}
			steps = append(steps, map[string]interface{}{"op": op, "before": before, "after": at(), "remote": p.Remote, "calls": calls, "err": err != nil, "rev": rev})
		}
		os.RemoveAll(home)
		os.RemoveAll(state)
		rec.put(map[string]interface{}{"id": fmt.Sprintf("t%d", i), "kind": kind, "conf": map[string]string{"user": user, "pass": pass}, "url": url, "dir": dir, "steps": steps,
			"about": fmt.Sprintf("%s %s in %s: %.1500s", name, conf, dir, text(steps))})
	}
	rec.close()
}

func init() { commands["tools"] = cmdTools }
