package main

// Replays what TLC made up about git attributes and configured lists.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"

	"github.com/hound-search/hound/config"
	"github.com/hound-search/hound/index"
	"github.com/hound-search/hound/searcher"
)

type attrRule struct {
	Pat   string `json:"pat"`
	State string `json:"state"`
}

type attrFile struct {
	Dir   string     `json:"dir"`
	Rules []attrRule `json:"rules"`
}

func renderAttrs(f attrFile, variant int) string {
	var b strings.Builder
	if f.Dir == "" {
		b.WriteString("[attr]made linguist-generated\n")
	}
	if variant%2 == 0 {
		b.WriteString("# *.go linguist-generated\n\n")
	}
	for i, r := range f.Rules {
		p := gitPaths.Replace(r.Pat)
		if strings.ContainsAny(p, " \"") {
			p = `"` + strings.ReplaceAll(p, `"`, `\"`) + `"`
		}
		a := map[string]string{"set": "linguist-generated", "true": "linguist-generated=true", "macro": "made", "unset": "-linguist-generated",
			"false": "linguist-generated=false", "none": "!linguist-generated"}[r.State]
		switch (variant + i) % 4 {
		case 1:
			a = "text eol=lf " + a
		case 2:
			a = a + " -diff"
		case 3:
			a = "linguist-vendored\t" + a + "  linguist-language=Go"
		}
		fmt.Fprintf(&b, "%s %s\n", p, a)
	}
	return b.String()
}

func cmdAttributes(args []string) {
	rec := newRecorder("recs.ndjson")
	base, err := os.MkdirTemp(args[1], "attr")
	must(err)
	gitEnv(base)
	b, err := os.ReadFile(args[0])
	must(err)
	lines := strings.Split(strings.TrimSpace(string(b)), "\n")
	var serves int64
	parallel(len(lines), 12, func(i int) {
		var h []map[string]interface{}
		must(json.Unmarshal([]byte(lines[i]), &h))
		dir := filepath.Join(base, fmt.Sprintf("s%d", i))
		atomic.AddInt64(&serves, attrScenario(rec, fmt.Sprintf("a%d", i), dir, i, h))
		os.RemoveAll(dir)
	})
	rec.close()
	writeJSON("stats.json", map[string]int64{"served": serves})
}

func attrScenario(rec *recorder, id, dir string, variant int, h []map[string]interface{}) int64 {
	var n int64
	kind := h[0]["kind"].(string)
	g := newGitWorld(dir, "master")
	src := filepath.Join(dir, "src")
	must(os.MkdirAll(src, 0755))
	db := filepath.Join(dir, "db")
	must(os.MkdirAll(db, 0755))
	m := config.SecretMessage(`{"watch-changes":true}`)
	yes, no := true, false
	var ss map[string]*searcher.Searcher
	commits := 1
	// what a commit is told by: the file "rev"
	content := map[string]string{}
	g.commit("master", []gentry{{P: "rev", K: "file"}}, func(gentry) []byte { return []byte("rev 1\n") }, "")
	must(os.WriteFile(filepath.Join(src, "rev"), []byte("rev 1\n"), 0644))
	out := []map[string]interface{}{h[0]}
	serve := func(nr int, s *searcher.Searcher) bool {
		n++
		e := map[string]interface{}{"op": "serve", "n": nr, "rev": 0, "shown": []int{}}
		out = append(out, e)
		for end := time.Now().Add(15 * time.Second); ; time.Sleep(3 * time.Millisecond) {
			// without a pattern for the path this is one revision
			r, err := s.Search("^(mark|rev [0-9]+)$", &index.SearchOptions{Limit: 1000, MaxResults: 1000})
			if err != nil {
				e["why"] = err.Error()
				return false
			}
			rev := 0
			shown := []map[string]interface{}{}
			for _, f := range r.Matches {
				if f.Filename == "rev" {
					fmt.Sscanf(f.Matches[0].Line, "rev %d", &rev)
					continue
				}
				for range f.Matches {
					shown = append(shown, map[string]interface{}{"p": gitPathsBack.Replace(f.Filename), "gen": f.AutoGenerated})
				}
			}
			if rev == commits {
				e["rev"], e["shown"] = rev, shown
				return true
			}
			if time.Now().After(end) {
				e["why"] = fmt.Sprintf("still at %d instead of %d", rev, commits)
				return false
			}
		}
	}
	ok := true
	all := func() {
		for nr := 1; nr <= len(ss); nr++ {
			s := ss[fmt.Sprintf("r%d", nr)]
			ok = ok && serve(nr, s)
		}
	}
	for _, e := range h[1:] {
		if !ok {
			break
		}
		out = append(out, e)
		switch e["op"] {
		case "commit":
			var files []string
			var attrs []attrFile
			b, _ := json.Marshal(e["files"])
			must(json.Unmarshal(b, &files))
			b, _ = json.Marshal(e["attrs"])
			must(json.Unmarshal(b, &attrs))
			e["files"], e["attrs"] = append([]string{}, files...), append([]attrFile{}, attrs...)
			commits++
			content = map[string]string{"rev": fmt.Sprintf("rev %d\n", commits)}
			for _, p := range files {
				content[p] = "text of " + p + "\nmark\n"
			}
			for i, f := range attrs {
				content[f.Dir+".gitattributes"] = renderAttrs(f, variant+i+commits)
			}
			if kind == "git" {
				tree := []gentry{}
				for p := range content {
					tree = append(tree, gentry{P: p, K: "file"})
				}
				g.commit("master", tree, func(x gentry) []byte { return []byte(content[x.P]) }, "")
			} else {
				next := filepath.Join(dir, "next")
				for p, c := range content {
					p = filepath.Join(next, gitPaths.Replace(p))
					must(os.MkdirAll(filepath.Dir(p), 0755))
					must(os.WriteFile(p, []byte(c), 0644))
				}
				// some poll may fail when there is no directory
				must(os.Rename(src, filepath.Join(dir, fmt.Sprintf("old%d", commits))))
				must(os.Rename(next, src))
			}
			if ss != nil {
				for _, s := range ss {
					s.Update()
				}
				all()
			}
		case "boot":
			c := &config.Config{DbPath: db, MaxConcurrentIndexers: 2, ResultLimit: 5000, Repos: map[string]*config.Repo{}}
			ls := e["lists"].([]interface{})
			for k, l := range ls {
				r := &config.Repo{Url: g.url, Vcs: "git", MsBetweenPolls: 3600000, EnablePollUpdates: &no, EnablePushUpdates: &yes, UrlPattern: &config.UrlPattern{}}
				if kind == "local" {
					r.Url, r.Vcs, r.VcsConfigMessage = "file://"+src, "local", &m
				}
				for _, p := range l.([]interface{}) {
					r.AutoGeneratedFiles = append(r.AutoGeneratedFiles, gitPaths.Replace(p.(string)))
				}
				if l == nil || len(l.([]interface{})) == 0 {
					ls[k] = []int{}
					if (variant+k)%2 == 0 {
						r.AutoGeneratedFiles = []string{}
					}
				}
				c.Repos[fmt.Sprintf("r%d", k+1)] = r
			}
			why := ""
			if !within(func() {
				s, errs, err := searcher.MakeAll(c)
				if err != nil {
					why = err.Error()
				}
				for _, err := range errs {
					why = err.Error()
				}
				ss = s
			}) {
				why = "no answer"
			}
			if why != "" {
				out = append(out, map[string]interface{}{"op": "serve", "n": 1, "rev": 0, "shown": []int{}, "why": why})
				ok = false
				break
			}
			all()
		case "stop":
			for _, s := range ss {
				s.Stop()
			}
			for _, s := range ss {
				s.Wait()
			}
			ss = nil
		}
	}
	for _, s := range ss {
		s.Stop()
	}
	for _, s := range ss {
		if !within(s.Wait) {
			break
		}
	}
	rec.put(map[string]interface{}{"id": id, "ev": out})
	return n
}

func init() { commands["attributes"] = cmdAttributes }
