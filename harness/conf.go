package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"github.com/hound-search/hound/config"
)

// text is a value's canonical JSON text.
func text(v interface{}) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(false)
	must(e.Encode(v))
	return strings.TrimSpace(b.String())
}

// pairs gives an object's members in canonical form.
func pairs(m map[string]interface{}) []interface{} {
	out := []interface{}{}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		out = append(out, []string{k, text(m[k])})
	}
	return out
}

// vconf is a vcs-config as given.
type vconf struct {
	kind string
	vals map[string]interface{}
	raw  interface{}
}

func (v vconf) json() map[string]interface{} {
	t := ""
	if v.kind == "other" {
		t = text(v.raw)
	}
	return map[string]interface{}{"kind": v.kind, "vals": pairs(v.vals), "text": t}
}

func (v vconf) value() interface{} {
	switch v.kind {
	case "object":
		return v.vals
	case "other":
		return v.raw
	}
	return nil
}

// confCase is a configuration file and what the specification is told of it.
type confCase struct {
	obj map[string]interface{} // the file
	in  map[string]interface{} // for the specification
	raw []byte                 // the file, if it is not just obj
}

type confOpts struct {
	null, other bool // may have null entries and other odd things
	secret      func() interface{}
	vcs         []string
	urls        func(i int) string
	names       []string
	noconf      bool // leaves the vcs-configs out
}

// addSecrets adds version control configurations; which ones does not depend on rng.
func (co *confOpts) addSecrets(rng, where *rand.Rand, c *confCase) {
	conf := func() vconf {
		m := map[string]interface{}{}
		for _, k := range []string{"username", "password", "ref", "x", "url"} {
			if rng.Intn(2) == 0 {
				m[k] = co.secret()
			}
		}
		if rng.Intn(4) == 0 {
			m[fmt.Sprint("k", co.secret())] = 1
		}
		return vconf{kind: "object", vals: m}
	}
	repos, _ := c.obj["repos"].(map[string]interface{})
	for _, x := range c.in["repos"].([]interface{}) {
		in := x.(map[string]interface{})
		if where.Intn(3) > 0 {
			v := conf()
			in["conf"] = v.json()
			repos[in["name"].(string)].(map[string]interface{})["vcs-config"] = v.value()
		}
	}
	gs := map[string]interface{}{}
	gin := []interface{}{}
	for _, n := range []string{"static", "static2", "git", "svn", "nosuch"} {
		if where.Intn(2) == 0 {
			v := conf()
			g := v.json()
			g["vcs"] = text(n)
			gs[n] = v.value()
			gin = append(gin, g)
		}
	}
	c.obj["vcs-config"] = gs
	c.in["global"] = gin
}

// option decides about one option: absent, null or one of the values.
func option(rng *rand.Rand, o map[string]interface{}, key string, vals ...interface{}) string {
	switch n := rng.Intn(8); {
	case n < 2:
		return "absent"
	case n == 2:
		o[key] = nil
		return "null"
	}
	v := vals[rng.Intn(len(vals))]
	o[key] = v
	return text(v)
}

var vcsNames = []string{"", "git", "hg", "svn", "local", "nosuch", "GIT"}

func (co *confOpts) vconf(rng *rand.Rand) vconf {
	keys := []string{"username", "password", "ref", "detect-ref", "x", "é", "a.b", "url", ""}
	vals := []interface{}{"", "secret", "x y", true, false, nil, 0, 7, 1.5, -3, "true", []interface{}{"a", 1}, map[string]interface{}{"k": "v", "n": nil}, "<&>", "é\"\\"}
	switch n := rng.Intn(14); {
	case n < 3:
		return vconf{kind: "absent"}
	case n == 3:
		return vconf{kind: "null"}
	case n == 4 && co.other:
		return vconf{kind: "other", raw: []interface{}{"a string", 5, []interface{}{"x"}, true}[rng.Intn(4)]}
	}
	m := map[string]interface{}{}
	for _, k := range keys {
		if rng.Intn(3) == 0 {
			if co.secret != nil && rng.Intn(3) > 0 {
				m[k] = co.secret()
			} else {
				m[k] = vals[rng.Intn(len(vals))]
			}
		}
	}
	return vconf{kind: "object", vals: m}
}

func (co *confOpts) repo(rng *rand.Rand, i int, name string) (interface{}, map[string]interface{}) {
	o := map[string]interface{}{}
	in := map[string]interface{}{"name": name, "null": false}
	pat := map[string]interface{}{"given": false, "base": "absent", "anchor": "absent"}
	in["pattern"] = pat
	if co.null && rng.Intn(60) == 0 {
		in["null"] = true
		for _, k := range []string{"url", "display", "ms", "vcs", "dot", "poll", "push", "auto"} {
			in[k] = "absent"
		}
		in["conf"] = vconf{kind: "absent"}.json()
		return nil, in
	}
	if co.urls != nil {
		o["url"] = co.urls(i)
		in["url"] = text(o["url"])
	} else {
		in["url"] = option(rng, o, "url", "https://github.com/a/b.git", "", "x", "file:///é")
	}
	in["display"] = option(rng, o, "display-name", "Name", "", "a <b> & \"c\"", "é")
	in["ms"] = option(rng, o, "ms-between-poll", 0, 1, 30000, 86400000, -1)
	if co.vcs != nil {
		o["vcs"] = co.vcs[rng.Intn(len(co.vcs))]
		in["vcs"] = text(o["vcs"])
	} else {
		in["vcs"] = option(rng, o, "vcs", "", "git", "hg", "svn", "local", "nosuch", "GIT")
	}
	in["dot"] = option(rng, o, "exclude-dot-files", true, false)
	in["poll"] = option(rng, o, "enable-poll-updates", true, false)
	in["push"] = option(rng, o, "enable-push-updates", true, false)
	in["auto"] = option(rng, o, "auto-generated-files", []string{}, []string{"a", "b/c"}, []string{"é<"})
	switch rng.Intn(4) {
	case 0:
		o["url-pattern"] = nil
	case 1, 2:
		p := map[string]interface{}{}
		pat["given"] = true
		pat["base"] = option(rng, p, "base-url", "", "{url}/x", "http://h/?p={path}&r={rev}")
		pat["anchor"] = option(rng, p, "anchor", "", "#{line}", "")
		o["url-pattern"] = p
	}
	v := vconf{kind: "absent"}
	if !co.noconf {
		v = co.vconf(rng)
	}
	in["conf"] = v.json()
	if v.kind != "absent" {
		o["vcs-config"] = v.value()
	}
	return o, in
}

func (co *confOpts) generate(rng *rand.Rand, dir []string) *confCase {
	o := map[string]interface{}{}
	top := map[string]interface{}{}
	top["title"] = option(rng, o, "title", "", "My Hound", "<é>")
	top["max"] = option(rng, o, "max-concurrent-indexers", 0, 1, 2, 17)
	top["health"] = option(rng, o, "health-check-uri", "", "/healthz", "/up", "ready", "/api/v1/search")
	top["limit"] = option(rng, o, "result-limit", 0, 1, 5000, 1000000, -1)
	db := map[string]interface{}{"abs": false, "parts": []string{}}
	switch p := []string{"", "data", "./data/", "a//b/./c", "../up/x", "../../../../../../../../../../..", "/abs/path", "/abs/../x", "é b", ".", "..", "/", "-"}[rng.Intn(13)]; {
	case rng.Intn(8) == 0:
	default:
		o["dbpath"] = p
		parts := strings.Split(p, "/")
		if strings.HasPrefix(p, "/") {
			db["abs"] = true
			parts = parts[1:]
		}
		db["parts"] = parts
	}
	var names []string
	if co.names != nil {
		names = co.names
	} else {
		for _, n := range []string{"a", "org/b", "é", "", "x y"} {
			if rng.Intn(2) == 0 {
				names = append(names, n)
			}
		}
	}
	repos := map[string]interface{}{}
	rin := []interface{}{}
	for i, n := range names {
		v, in := co.repo(rng, i, n)
		repos[n] = v
		rin = append(rin, in)
	}
	if len(names) > 0 || rng.Intn(2) == 0 {
		o["repos"] = repos
	}
	gin := []interface{}{}
	if !co.noconf && rng.Intn(4) > 0 {
		gs := map[string]interface{}{}
		vs := vcsNames
		if co.vcs != nil {
			vs = append(append([]string{}, co.vcs...), vs...)
		}
		done := map[string]bool{}
		for _, n := range vs {
			v := co.vconf(rng)
			if rng.Intn(3) == 0 || v.kind == "absent" || done[n] || v.kind == "other" && rng.Intn(6) > 0 {
				continue
			}
			done[n] = true
			g := v.json()
			g["vcs"] = text(n)
			gs[n] = v.value()
			gin = append(gin, g)
		}
		o["vcs-config"] = gs
	}
	return &confCase{obj: o, in: map[string]interface{}{"file": "ok", "dir": dir, "top": top, "dbpath": db, "global": gin, "repos": rin}}
}

func confOut(c *config.Config) map[string]interface{} {
	rs := []interface{}{}
	for n, r := range c.Repos {
		conf := map[string]interface{}{"vals": []interface{}{}, "text": ""}
		if b := r.VcsConfig(); len(b) > 0 {
			var m map[string]interface{}
			var v interface{}
			must(json.Unmarshal(b, &v))
			if err := json.Unmarshal(b, &m); err == nil {
				conf["vals"] = pairs(m)
			} else {
				conf["text"] = text(v)
			}
		}
		auto := r.AutoGeneratedFiles
		if auto == nil {
			auto = []string{}
		}
		base, anchor := "none", "none"
		if r.UrlPattern != nil {
			base, anchor = text(r.UrlPattern.BaseUrl), text(r.UrlPattern.Anchor)
		}
		rs = append(rs, map[string]interface{}{"name": n, "url": text(r.Url), "display": text(r.DisplayName), "ms": text(r.MsBetweenPolls),
			"vcs": text(r.Vcs), "base": base, "anchor": anchor, "dot": text(r.ExcludeDotFiles),
			"poll": text(r.PollUpdatesEnabled()), "push": text(r.PushUpdatesEnabled()), "auto": text(auto), "conf": conf})
	}
	db := c.DbPath
	abs := strings.HasPrefix(db, "/")
	parts := strings.Split(strings.TrimPrefix(db, "/"), "/")
	if abs && db == "/" {
		parts = []string{}
	}
	if !abs {
		parts = append([]string{"not absolute"}, parts...)
	}
	return map[string]interface{}{"top": map[string]interface{}{"title": text(c.Title), "max": text(c.MaxConcurrentIndexers),
		"health": text(c.HealthCheckURI), "limit": text(c.ResultLimit)}, "dbpath": parts, "repos": rs}
}

func cmdConf(args []string) {
	rec := newRecorder("recs.ndjson")
	rng := newRand(23)
	dir, err := os.MkdirTemp(outDir, "conf")
	must(err)
	dir, err = filepath.EvalSymlinks(dir)
	must(err)
	sub := filepath.Join(dir, "etc/hound é")
	must(os.MkdirAll(sub, 0755))
	must(os.Chdir(dir))
	parts := strings.Split(strings.TrimPrefix(sub, "/"), "/")
	co := &confOpts{null: true, other: true}
	for i := 0; i < pick(3000, 40000); i++ {
		c := co.generate(rng, parts)
		if db := c.obj["dbpath"]; db == "/" {
			c.in["dbpath"] = map[string]interface{}{"abs": true, "parts": []string{}}
		}
		b, err := json.Marshal(c.obj)
		must(err)
		if rng.Intn(2) == 0 {
			b, _ = json.MarshalIndent(c.obj, " ", "\t")
			b = append(b, "\n \n"...)
		}
		path := filepath.Join(sub, fmt.Sprintf("c%d.json", i))
		arg := path
		if rng.Intn(3) == 0 {
			arg = []string{"./etc/hound é/", "etc/hound é/", "etc/../etc/hound é/./"}[rng.Intn(3)] + filepath.Base(path)
		}
		what := ""
		if rng.Intn(12) == 0 { // something is wrong with it
			what = []string{"missing", "cut", "garbage", "type", "empty", "tail", "directory"}[rng.Intn(7)]
			c.in["file"] = what
			switch what {
			case "cut":
				b = bytes.TrimSpace(b)
				b = b[:rng.Intn(len(b))]
			case "garbage":
				b = append([]byte("x"), b...)
			case "tail":
				b = append(b, []string{"}", " x", "{}", "]", "\x00"}[rng.Intn(5)]...)
			case "empty":
				b = []byte(strings.Repeat(" ", rng.Intn(3)))
			case "type":
				bad := [][2]interface{}{{"title", 5}, {"max-concurrent-indexers", "2"}, {"result-limit", 1.5}, {"dbpath", true}, {"repos", []int{1}},
					{"health-check-uri", []string{"x"}}, {"vcs-config", "x"}, {"repos", map[string]interface{}{"a": "x"}},
					{"repos", map[string]interface{}{"a": map[string]interface{}{"url": 5}}},
					{"repos", map[string]interface{}{"a": map[string]interface{}{"enable-poll-updates": "true"}}},
					{"repos", map[string]interface{}{"a": map[string]interface{}{"ms-between-poll": "1000"}}},
					{"repos", map[string]interface{}{"a": map[string]interface{}{"auto-generated-files": "x"}}},
					{"repos", map[string]interface{}{"a": map[string]interface{}{"url-pattern": "x"}}}}[rng.Intn(13)]
				c.obj[bad[0].(string)] = bad[1]
				b, _ = json.Marshal(c.obj)
			}
		}
		if what == "directory" {
			must(os.Mkdir(path, 0755))
		} else if what != "missing" {
			must(os.WriteFile(path, b, 0644))
		}
		var cfg config.Config
		err = cfg.LoadFromFile(arg)
		out := map[string]interface{}{}
		msg := ""
		if err == nil {
			out = confOut(&cfg)
		} else {
			msg = err.Error()
		}
		rec.put(map[string]interface{}{"id": fmt.Sprintf("k%d", i), "in": c.in, "err": err != nil, "out": out,
			"about": fmt.Sprintf("%s %s (file %s): error %q, loaded %.700s", arg, b, c.in["file"], msg, text(out))})
		os.RemoveAll(path)
	}
	rec.close()
}

func init() { commands["conf"] = cmdConf }
