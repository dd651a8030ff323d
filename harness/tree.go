package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"time"

	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/index"
)

// brun is a run of repeated bytes.
type brun struct {
	b []byte
	n int
}

type entry struct {
	path string
	kind string // file, dir, link, fifo, sock
	segs []brun
	to   string // link target
}

func (e *entry) bytes() []byte {
	var b bytes.Buffer
	for _, s := range e.segs {
		b.Write(bytes.Repeat(s.b, s.n))
	}
	return b.Bytes()
}

func pathJSON(p string) []interface{} {
	out := []interface{}{}
	for _, x := range strings.Split(p, "/") {
		out = append(out, bytesOf(x))
	}
	return out
}

func (e *entry) json() map[string]interface{} {
	k := e.kind
	if k != "file" && k != "dir" {
		k = "other"
	}
	segs := []interface{}{}
	for _, s := range e.segs {
		segs = append(segs, map[string]interface{}{"b": bytesOf(string(s.b)), "n": s.n})
	}
	return map[string]interface{}{"path": pathJSON(e.path), "kind": k, "segs": segs}
}

func makeTree(root string, es []*entry) {
	must(os.MkdirAll(root, 0755))
	for _, e := range es {
		p := filepath.Join(root, e.path)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		switch e.kind {
		case "dir":
			must(os.MkdirAll(p, 0755))
		case "file":
			must(os.WriteFile(p, e.bytes(), 0644))
		case "link":
			must(os.Symlink(e.to, p))
		case "fifo":
			must(syscall.Mkfifo(p, 0644))
		case "sock":
			fd, err := syscall.Socket(syscall.AF_UNIX, syscall.SOCK_STREAM, 0)
			must(err)
			wd, err := os.Getwd()
			must(err)
			_ = wd
			// socket names are short: bind through a short alias of the directory
			al, err := os.MkdirTemp("/tmp", "s")
			must(err)
			must(os.Symlink(filepath.Dir(p), filepath.Join(al, "d")))
			must(syscall.Bind(fd, &syscall.SockaddrUnix{Name: filepath.Join(al, "d", filepath.Base(p))}))
			syscall.Close(fd)
			must(os.Remove(filepath.Join(al, "d")))
			must(os.Remove(al))
		}
	}
}

func reasonClass(s string) string {
	l := strings.ToLower(s)
	switch {
	case strings.Contains(l, "dot file"):
		return "dot"
	case strings.Contains(l, "file mode"):
		return "mode"
	case strings.Contains(l, "not a text"), strings.Contains(l, "utf-8"):
		return "text"
	case strings.Contains(l, "trigram"):
		return "trigrams"
	case strings.Contains(l, "long lines"):
		return "lines"
	case strings.Contains(l, "too long"):
		return "long"
	}
	return "unknown: " + s
}

// treeResult is what a build did.
type treeResult struct {
	Outcome  string      `json:"outcome"`
	Detail   string      `json:"detail"`
	Indexed  []string    `json:"indexed"`
	Excluded [][2]string `json:"excluded"`
	Found    []string    `json:"found"`
}

// buildTree indexes src and looks at the result.
func buildTree(opt *index.IndexOptions, dst, src string, read func(rel string) ([]byte, error)) (r treeResult) {
	r.Indexed, r.Excluded, r.Found = []string{}, [][2]string{}, []string{}
	defer func() {
		if p := recover(); p != nil {
			r.Outcome, r.Detail = "panic", fmt.Sprint(p)
		}
	}()
	ref, err := index.Build(opt, dst, src, "url", "rev")
	if err != nil {
		r.Outcome, r.Detail = "error", err.Error()
		return
	}
	r.Outcome = "ok"
	ci := cindex.Open(filepath.Join(dst, "tri"))
	for _, id := range ci.PostingQuery(&cindex.Query{Op: cindex.QAll}) {
		r.Indexed = append(r.Indexed, ci.Name(id))
	}
	ci.Close()
	var ex []*index.ExcludedFile
	b, err := os.ReadFile(filepath.Join(dst, "excluded_files.json"))
	if err == nil {
		err = json.Unmarshal(b, &ex)
	}
	if err != nil {
		r.Outcome, r.Detail = "unreadable excluded files", err.Error()
		return
	}
	for _, x := range ex {
		r.Excluded = append(r.Excluded, [2]string{x.Filename, reasonClass(x.Reason)})
	}
	ix, err := ref.Open()
	if err != nil {
		r.Outcome, r.Detail = "cannot open", err.Error()
		return
	}
	defer ix.Close()
	res, err := ix.Search("", &index.SearchOptions{})
	if err != nil {
		r.Outcome, r.Detail = "cannot search", err.Error()
		return
	}
	for _, fm := range res.Matches {
		data, err := read(fm.Filename)
		want := strings.Split(string(data), "\n")
		if len(want) > 0 && want[len(want)-1] == "" {
			want = want[:len(want)-1]
		}
		same := err == nil && len(want) == len(fm.Matches)
		for i := 0; same && i < len(want); i++ {
			same = fm.Matches[i].Line == want[i] && fm.Matches[i].LineNumber == i+1
		}
		if same {
			r.Found = append(r.Found, fm.Filename)
		} else {
			r.Found = append(r.Found, fm.Filename+"/?wrong content")
		}
	}
	return
}

var treeNames = []string{"a", "b.go", "main.c", ".hidden", ".git", ".gitignore", "CVS", "x y", "é.txt", "日本", "..a", "a.", "-x", "tab\tname", "new\nline", "<b>", `q"uote`, "index", "raw", "tri", "metadata.gob", "node_modules", "README", "zz"}

func randContent(rng *rand.Rand) []brun {
	toks := []string{"a", "b", "func main() {", " ", "\n", "é", "€", "😀", "\r\n", "\t", "0"}
	bad := []string{"\xc3", "\xa9", "\xe2\x82", "\xff", "\xfe", "\xc0\x80", "\xed\xa0\x80", "\xf0\x9f\x98", "\xf8", "\xf4\x90\x80\x80", "\x80", "\x00", "\xf7\xbf"}
	var out []brun
	s := ""
	for k := rng.Intn(30); k > 0; k-- {
		s += toks[rng.Intn(len(toks))]
	}
	switch rng.Intn(6) {
	case 0:
		i := rng.Intn(len(s) + 1)
		s = s[:i] + bad[rng.Intn(len(bad))] + s[i:]
	case 1:
		s += bad[rng.Intn(len(bad))]
	case 2: // something questionable around the peek size
		n := 2048 - 8 + rng.Intn(10) - len(s)
		if n > 0 {
			out = append(out, brun{[]byte("x"), n})
		}
		s2 := toks[rng.Intn(len(toks))] + toks[5+rng.Intn(3)] + toks[5+rng.Intn(3)]
		if rng.Intn(2) == 0 {
			s2 += bad[rng.Intn(len(bad))]
		}
		if rng.Intn(2) == 0 {
			s2 += strings.Repeat("é", rng.Intn(4))
		}
		out = append(out, brun{[]byte(s2), 1})
		if rng.Intn(2) == 0 {
			out = append(out, brun{[]byte("more text\n"), rng.Intn(400)})
		}
		if rng.Intn(4) == 0 {
			out = append(out, brun{[]byte(bad[rng.Intn(len(bad))]), 1})
		}
		return out
	}
	if s != "" {
		out = append(out, brun{[]byte(s), 1})
	}
	if rng.Intn(4) == 0 {
		out = append(out, brun{[]byte(toks[rng.Intn(len(toks))]), 1 + rng.Intn(3000)})
	}
	return out
}

// deBruijn is a text over 28 characters whose trigrams are all different.
func deBruijn() []byte {
	alpha := "abcdefghijklmnopqrstuvwxyz01"
	k := len(alpha)
	a := make([]int, k*3)
	var seq []int
	var db func(t, p int)
	db = func(t, p int) {
		if t > 3 {
			if 3%p == 0 {
				seq = append(seq, a[1:p+1]...)
			}
			return
		}
		a[t] = a[t-p]
		db(t+1, p)
		for j := a[t-p] + 1; j < k; j++ {
			a[t] = j
			db(t+1, t)
		}
	}
	db(1, 1)
	out := make([]byte, 0, len(seq)+2)
	for _, x := range seq {
		out = append(out, alpha[x])
	}
	return append(out, out[0], out[1])
}

// limitTree has files at the documented limits.
func limitTree() []*entry {
	var es []*entry
	add := func(segs ...brun) {
		es = append(es, &entry{path: fmt.Sprintf("l%03d", len(es)), kind: "file", segs: segs})
	}
	s := func(x string, n int) brun { return brun{[]byte(x), n} }
	const max = 1 << 25
	add()
	add(s("\n", 1))
	add(s("0123456789abcde\n", max/16))                   // exactly the limit
	add(s("0123456789abcde\n", max/16), s("x", 1))        // one more
	add(s("0123456789abcde\n", max/16-1), s("fine\n", 3)) // one less
	for _, n := range []int{1998, 1999, 2000, 2001, 4000} {
		l := strings.Repeat("y", n)
		add(s(l+"\n", 1))
		add(s(l, 1))                                  // not terminated
		add(s(l+"\n", 1), s("z\n", 9))                // 1 in 10
		add(s(l+"\n", 1), s("z\n", 8))                // more than that
		add(s("z\n", 19), s(l+"\n", 2))               // 2 in 21
		add(s("z\n", 17), s(l+"\n", 2))               // 2 in 19
		add(s("z\n", 90), s(l+"\n", 10), s(l, 1))     // 10 in 100
		add(s("z\n", 89), s(l+"\n", 10), s("end", 1)) // 10 in 99
		add(s("\n", 9), s(strings.Repeat("y", n-1), 1), s("\n", 1))
	}
	d := deBruijn()
	add(brun{d[:20001], 1})
	add(brun{d[:20002], 1})
	add(brun{d[:20003], 1})
	add(brun{d[:20003], 1}, s("a", 175000)) // ratio just above a tenth
	add(brun{d[:20003], 1}, s("a", 185000)) // just below
	add(brun{d[:19000], 1}, s("\n", 1), brun{d[19000:], 1})
	add(brun{d, 1}, s("\nab", 3000))
	return es
}

// peekTrees have files whose start, as far as it is looked at, ends in or
// beside something questionable.
func peekTrees() [][]*entry {
	var out [][]*entry
	var es []*entry
	for _, t := range []string{"\xf0\x80\x80\x80", "\xf4\x90\x80\x80", "\xf0\x9f\x98\x80", "\xf0\x9f\x98", "\xf0\x9f", "\xf0", "\xe2\x82\xac", "\xe2\x82", "\xe0\x80\x80", "\xed\xa0\x80",
		"\xc3\xa9", "\xc3", "\xc0\x80", "\xa9", "\xff", "\xf7\xbf\xbf\xbf", "\x00", "\xe2a", "\xf0aaa"} {
		for at := 2048 - 6; at <= 2049; at++ {
			segs := []brun{{[]byte("x"), at}, {[]byte(t), 1}}
			switch {
			case (at+len(t))%3 == 0:
				segs = append(segs, brun{[]byte("\nmore text"), 3})
			case (at+len(t))%3 == 1:
				segs = append(segs, brun{[]byte("é"), 3})
			}
			es = append(es, &entry{path: fmt.Sprintf("p%d", len(es)), kind: "file", segs: segs})
		}
		if len(es) > 12 {
			out, es = append(out, es), nil
		}
	}
	if len(es) > 0 {
		out = append(out, es)
	}
	return out
}

func randTree(rng *rand.Rand, n int) []*entry {
	dirs := []string{""}
	used := map[string]bool{}
	var es []*entry
	for len(es) < n {
		d := dirs[rng.Intn(len(dirs))]
		name := treeNames[rng.Intn(len(treeNames))]
		if rng.Intn(3) == 0 {
			name = fmt.Sprintf("f%d", rng.Intn(50))
		}
		p := name
		if d != "" {
			p = d + "/" + name
		}
		if used[p] || strings.Count(p, "/") > 4 {
			continue
		}
		used[p] = true
		e := &entry{path: p, kind: "file"}
		switch k := rng.Intn(20); {
		case k < 5:
			e.kind = "dir"
			dirs = append(dirs, p)
		case k == 5:
			e.kind = "link"
			e.to = []string{"f1", "/etc/passwd", "nowhere", ".", "..", name}[rng.Intn(6)]
		case k == 6:
			e.kind = []string{"fifo", "sock"}[rng.Intn(2)]
		default:
			e.segs = randContent(rng)
		}
		es = append(es, e)
	}
	return es
}

func treeRecord(id string, opt *index.IndexOptions, es []*entry, readable bool, r treeResult, about string) map[string]interface{} {
	tree := []interface{}{}
	for _, e := range es {
		tree = append(tree, e.json())
	}
	special := []interface{}{}
	for _, s := range opt.SpecialFiles {
		special = append(special, bytesOf(s))
	}
	in, ex, fo := []interface{}{}, []interface{}{}, []interface{}{}
	for _, p := range r.Indexed {
		in = append(in, pathJSON(p))
	}
	for _, p := range r.Found {
		fo = append(fo, pathJSON(p))
	}
	for _, x := range r.Excluded {
		ex = append(ex, []interface{}{pathJSON(x[0]), x[1]})
	}
	return map[string]interface{}{"id": id, "opt": map[string]interface{}{"dot": opt.ExcludeDotFiles, "special": special},
		"tree": tree, "readable": readable, "outcome": r.Outcome,
		"res":   map[string]interface{}{"indexed": in, "excluded": ex, "found": fo},
		"about": fmt.Sprintf("%s, options %+v: %s %s, %d indexed, %d excluded, %d found", about, *opt, r.Outcome, r.Detail, len(r.Indexed), len(r.Excluded), len(r.Found))}
}

func treeOptions(rng *rand.Rand) *index.IndexOptions {
	sp := [][]string{nil, {".git"}, {".git", "CVS"}, {".svn", "README", "node_modules"}}
	return &index.IndexOptions{ExcludeDotFiles: rng.Intn(2) == 0, SpecialFiles: sp[rng.Intn(len(sp))]}
}

// childJob is a build done by an unprivileged child process.
type childJob struct {
	Opt      index.IndexOptions
	Dst, Src string
}

func cmdTreeChild(args []string) {
	var j childJob
	must(json.Unmarshal([]byte(args[0]), &j))
	r := buildTree(&j.Opt, j.Dst, j.Src, func(rel string) ([]byte, error) { return os.ReadFile(filepath.Join(j.Src, rel)) })
	b, err := json.Marshal(r)
	must(err)
	os.Stdout.Write(b)
}

func runChild(dir string, opt *index.IndexOptions, dst, src string) treeResult {
	j, err := json.Marshal(childJob{*opt, dst, src})
	must(err)
	exe, err := os.Executable()
	must(err)
	cmd := exec.Command(exe, "treechild", string(j))
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}}
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), "TMPDIR="+dir, "HOME="+dir, "VH_OUT="+dir)
	var se bytes.Buffer
	cmd.Stderr = &se
	out, err := cmd.Output()
	var r treeResult
	if err != nil {
		if strings.Contains(se.String(), "HARNESS-ERROR") {
			die("%s", se.String())
		}
		return treeResult{Outcome: "crash", Detail: err.Error() + " " + se.String()}
	}
	must(json.Unmarshal(out, &r))
	return r
}

func cmdTree(args []string) {
	rec := newRecorder("recs.ndjson")
	type job func(dir string) map[string]interface{}
	var jobs []job
	plain := func(id string, rng *rand.Rand, es []*entry, opt *index.IndexOptions, about string) {
		jobs = append(jobs, func(dir string) map[string]interface{} {
			root := filepath.Join(dir, []string{"src", ".dotroot", "README", "vcs-0123"}[rng.Intn(4)])
			makeTree(root, es)
			src := root
			if rng.Intn(3) == 0 { // as the driver for local directories does
				src = filepath.Join(dir, "link")
				must(os.Symlink(root, src))
			}
			r := buildTree(opt, filepath.Join(dir, "idx"), src, func(rel string) ([]byte, error) { return os.ReadFile(filepath.Join(root, rel)) })
			return treeRecord(id, opt, es, true, r, about)
		})
	}
	for i := 0; i < pick(130, 2500); i++ {
		rng := newRand(20000 + int64(i))
		plain(fmt.Sprintf("t%d", i), rng, randTree(rng, 3+rng.Intn(30)), treeOptions(rng), fmt.Sprintf("random tree %d", i))
	}
	lrng := newRand(11)
	plain("limits", lrng, limitTree(), &index.IndexOptions{}, "files at the limits")
	for i, es := range peekTrees() {
		plain(fmt.Sprintf("peek%d", i), lrng, es, &index.IndexOptions{}, "files that are questionable where looking at them ends")
	}
	plain("empty", lrng, nil, &index.IndexOptions{ExcludeDotFiles: true}, "an empty tree")

	// trees that cannot be read completely
	for i := 0; i < pick(24, 200); i++ {
		i := i
		jobs = append(jobs, func(dir string) map[string]interface{} {
			rng := newRand(40000 + int64(i))
			must(os.Chmod(dir, 0777))
			root := filepath.Join(dir, "src")
			es := []*entry{{path: "ok.txt", kind: "file", segs: []brun{{[]byte("text\n"), 2}}},
				{path: "d/in.txt", kind: "file", segs: []brun{{[]byte("inside\n"), 2}}},
				{path: "d/e/deep.txt", kind: "file", segs: []brun{{[]byte("deep\n"), 2}}},
				{path: "z", kind: "dir"}, {path: "z.txt", kind: "file"}}
			makeTree(root, es)
			bad := []string{"d", "d/e", "d/in.txt", ".", "z", "ok.txt", "z.txt"}[rng.Intn(7)]
			about := "no permission for " + bad
			readable := false
			mode := os.FileMode(0)
			switch rng.Intn(4) {
			case 0:
				mode = 0111
				about += " (search only)"
				if bad == "d/in.txt" || bad == "ok.txt" || bad == "z.txt" {
					mode = 0
				}
			case 1: // everything is fine
				mode = 0755
				readable = true
			}
			must(os.Chmod(filepath.Join(root, bad), mode))
			r := runChild(dir, &index.IndexOptions{}, filepath.Join(dir, "idx"), root)
			must(os.Chmod(filepath.Join(root, bad), 0755))
			return treeRecord(fmt.Sprintf("u%d", i), &index.IndexOptions{}, es, readable, r, about)
		})
	}
	for i := 0; i < pick(6, 40); i++ {
		i := i
		jobs = append(jobs, func(dir string) map[string]interface{} {
			root := filepath.Join(dir, "src")
			es := []*entry{{path: "a/0", kind: "file", segs: []brun{{[]byte("a large file to start with, so that there is time\n"), 400000}}}}
			for k := 0; k < 60; k++ {
				es = append(es, &entry{path: fmt.Sprintf("a/f%03d", k), kind: "file", segs: []brun{{[]byte("some text\n"), 20}}})
			}
			es = append(es, &entry{path: "b/c/x", kind: "file", segs: []brun{{[]byte("x\n"), 1}}})
			makeTree(root, es)
			what := []string{"a/f059", "a", "b/c", "b", "a/f030", "none"}[i%6]
			gone := make(chan bool)
			early := what == "none"
			go func() { // once the first file is being indexed, remove something
				defer close(gone)
				for t := 0; t < 200000; t++ {
					if _, err := os.Lstat(filepath.Join(dir, "idx", "raw", "a", "0")); err == nil {
						if what != "none" {
							os.Rename(filepath.Join(root, what), filepath.Join(dir, "away"))
							// only if the indexer is still at the first file is the effect certain
							_, err := os.Lstat(filepath.Join(dir, "idx", "raw", "a", "f000"))
							early = err != nil
						}
						return
					}
					time.Sleep(50 * time.Microsecond)
				}
			}()
			r := buildTree(&index.IndexOptions{}, filepath.Join(dir, "idx"), root, func(rel string) ([]byte, error) { return os.ReadFile(filepath.Join(root, rel)) })
			<-gone
			if !early {
				return nil
			}
			// a directory that is gone before it was listed may be noticed, or not have been there
			readable := what == "none"
			if what == "b/c" || what == "b" {
				// seen before or after; a consistent outcome is either an error or a tree without it
				if r.Outcome == "ok" {
					readable = true
					es = es[:len(es)-1]
				}
			}
			return treeRecord(fmt.Sprintf("v%d", i), &index.IndexOptions{}, es, readable, r, what+" removed while indexing")
		})
	}
	jobs = append(jobs, func(dir string) map[string]interface{} {
		r := buildTree(&index.IndexOptions{}, filepath.Join(dir, "idx"), filepath.Join(dir, "missing"), nil)
		return treeRecord("missing", &index.IndexOptions{}, nil, false, r, "a directory that does not exist")
	})

	out := make([]map[string]interface{}, len(jobs))
	parallel(len(jobs), 8, func(i int) {
		dir, err := os.MkdirTemp(outDir, "tree")
		must(err)
		must(os.Chmod(dir, 0755))
		out[i] = jobs[i](dir)
		os.RemoveAll(dir)
	})
	n := 0
	for _, r := range out {
		if r != nil {
			out[n] = r
			n++
		}
	}
	out = out[:n]
	sort.SliceStable(out, func(i, j int) bool { return out[i]["id"].(string) < out[j]["id"].(string) })
	for _, r := range out {
		rec.put(r)
	}
	rec.close()
}

func init() {
	commands["tree"] = cmdTree
	commands["treechild"] = cmdTreeChild
}
