package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"regexp/syntax"
	"sort"
	"strings"
	"sync"
	"unicode/utf8"

	cindex "github.com/hound-search/hound/codesearch/index"
	"github.com/hound-search/hound/index"
)

// seg is a run of n equal lines.
type seg struct {
	l string
	n int
}

type vfile struct {
	name string
	segs []seg
	term bool
}

func textFile(name, text string) *vfile {
	f := &vfile{name: name, term: true}
	if text == "" {
		return f
	}
	lines := strings.Split(text, "\n")
	if lines[len(lines)-1] == "" {
		lines = lines[:len(lines)-1]
	} else {
		f.term = false
	}
	for _, l := range lines {
		f.add(l, 1)
	}
	f.fix()
	return f
}

// add appends n lines l, joining runs.
func (f *vfile) add(l string, n int) {
	if k := len(f.segs); k > 0 && f.segs[k-1].l == l {
		f.segs[k-1].n += n
		return
	}
	f.segs = append(f.segs, seg{l, n})
}

// fix isolates the first line and an unterminated last line.
func (f *vfile) fix() {
	var out []seg
	for i, s := range f.segs {
		if i == 0 && s.n > 1 {
			out = append(out, seg{s.l, 1})
			s.n--
		}
		if i == len(f.segs)-1 && !f.term && s.n > 1 {
			out = append(out, seg{s.l, s.n - 1})
			s.n = 1
		}
		out = append(out, s)
	}
	f.segs = out
}

func (f *vfile) bytes() []byte {
	var b bytes.Buffer
	for i, s := range f.segs {
		for k := 0; k < s.n; k++ {
			b.WriteString(s.l)
			if f.term || i < len(f.segs)-1 || k < s.n-1 {
				b.WriteByte('\n')
			}
		}
	}
	return b.Bytes()
}

func (f *vfile) json() map[string]interface{} {
	segs := []interface{}{}
	for _, s := range f.segs {
		segs = append(segs, map[string]interface{}{"l": cps(s.l), "n": s.n})
	}
	name := []interface{}{}
	for _, l := range strings.Split(f.name, "\n") {
		name = append(name, cps(l))
	}
	return map[string]interface{}{"name": name, "segs": segs, "term": f.term}
}

// searchEnv accumulates what the specification needs besides the records.
type searchEnv struct {
	orbits  orbitSet
	corpora [][]*vfile
}

// built is an index over one corpus.
type built struct {
	ix     *index.Index
	corpus int
	order  map[string]int // file name -> position in the corpus (1 based)
	dir    string
}

func writeTree(dir string, files []*vfile) {
	for _, f := range files {
		p := filepath.Join(dir, f.name)
		must(os.MkdirAll(filepath.Dir(p), 0755))
		must(os.WriteFile(p, f.bytes(), 0644))
	}
}

// build indexes the files for real and arranges the corpus in index order.
func (e *searchEnv) build(files []*vfile, opt *index.IndexOptions) *built {
	dir, err := os.MkdirTemp(outDir, "corpus")
	must(err)
	src, dst := filepath.Join(dir, "src"), filepath.Join(dir, "idx")
	must(os.MkdirAll(src, 0755))
	writeTree(src, files)
	if opt == nil {
		opt = &index.IndexOptions{}
	}
	ref, err := index.Build(opt, dst, src, "url", "rev")
	sut(err, "building an index of %d files", len(files))
	must(os.RemoveAll(src))
	ci := cindex.Open(filepath.Join(dst, "tri"))
	var ordered []*vfile
	byName := map[string]*vfile{}
	for _, f := range files {
		byName[f.name] = f
	}
	done := map[string]bool{}
	for _, id := range ci.PostingQuery(&cindex.Query{Op: cindex.QAll}) {
		n := ci.Name(id)
		if f := byName[n]; f != nil && !done[n] {
			ordered = append(ordered, f)
			done[n] = true
		}
	}
	ci.Close()
	for _, f := range files {
		if !done[f.name] {
			ordered = append(ordered, f)
		}
	}
	ix, err := ref.Open()
	sut(err, "opening the index built")
	e.corpora = append(e.corpora, ordered)
	b := &built{ix: ix, corpus: len(e.corpora), order: map[string]int{}, dir: dir}
	for i, f := range ordered {
		b.order[f.name] = i + 1
		for _, s := range f.segs {
			e.orbits.addText(s.l)
		}
	}
	return b
}

func (b *built) close() {
	b.ix.Close()
	os.RemoveAll(b.dir)
}

func (e *searchEnv) write() {
	cs := []interface{}{}
	for _, c := range e.corpora {
		fs := []interface{}{}
		for _, f := range c {
			fs = append(fs, f.json())
		}
		cs = append(cs, fs)
	}
	writeJSON("env.json", map[string]interface{}{"orbits": e.orbits.list(), "corpora": cs})
}

// query is one search as the user asks for it.
type query struct {
	re       *node
	pat      string
	opt      index.SearchOptions
	inc, exc *node
	full     bool
	wantErr  bool
}

func absent() map[string]interface{} { return map[string]interface{}{"op": "absent"} }

func (q *query) json() map[string]interface{} {
	inc, exc := absent(), absent()
	if q.inc != nil {
		inc = q.inc.json()
	}
	if q.exc != nil {
		exc = q.exc.json()
	}
	re := absent()
	if q.re != nil {
		re = q.re.json()
	}
	// TLC computes with 32 bit integers; nothing here has that many files or lines
	small := func(n int) int {
		if n > 1<<29 {
			return 1 << 29
		}
		return n
	}
	return map[string]interface{}{"re": re, "fold": q.opt.IgnoreCase, "inc": inc, "exc": exc,
		"offset": small(q.opt.Offset), "limit": small(q.opt.Limit), "max": small(q.opt.MaxResults), "ctx": q.opt.LinesOfContext}
}

func textOrBytes(s string) []int {
	if utf8.ValidString(s) {
		return cps(s)
	}
	return append([]int{-1}, bytesOf(s)...)
}

func stringsJSON(ss []string) []interface{} {
	out := []interface{}{}
	for _, s := range ss {
		out = append(out, textOrBytes(s))
	}
	return out
}

func runsOf(ms []*index.Match) []interface{} {
	out := []interface{}{}
	for i := 0; i < len(ms); {
		j := i + 1
		for j < len(ms) && ms[j].LineNumber == ms[j-1].LineNumber+1 && ms[j].Line == ms[i].Line {
			j++
		}
		out = append(out, []interface{}{ms[i].LineNumber, j - i, textOrBytes(ms[i].Line)})
		i = j
	}
	return out
}

// run performs the query and records the outcome.
func (e *searchEnv) run(rec *recorder, b *built, id string, q *query) {
	opt := q.opt
	res, err := b.ix.Search(q.pat, &opt)
	e.record(rec, b, id, q, res, err)
}

func (e *searchEnv) record(rec *recorder, b *built, id string, q *query, res *index.SearchResponse, err error) {
	for _, n := range []*node{q.re, q.inc, q.exc} {
		if n != nil {
			e.orbits.addNode(n)
		}
	}
	fs := []interface{}{}
	got := map[string]interface{}{"out": fs, "fwm": 0, "opened": 0}
	kind := "runs"
	if q.full {
		kind = "full"
	}
	if q.wantErr {
		kind = "err"
	}
	errText := ""
	if err != nil {
		errText = err.Error()
	} else if res != nil {
		for _, fm := range res.Matches {
			k := b.order[fm.Filename]
			if q.full {
				ms := []interface{}{}
				for _, m := range fm.Matches {
					ms = append(ms, map[string]interface{}{"n": m.LineNumber, "l": textOrBytes(m.Line),
						"b": stringsJSON(m.Before), "a": stringsJSON(m.After)})
				}
				fs = append(fs, map[string]interface{}{"f": k, "ms": ms})
			} else {
				fs = append(fs, map[string]interface{}{"f": k, "runs": runsOf(fm.Matches)})
			}
		}
		got = map[string]interface{}{"out": fs, "fwm": res.FilesWithMatch, "opened": res.FilesOpened}
	}
	rec.put(map[string]interface{}{"id": id, "kind": kind, "corpus": b.corpus, "q": q.json(), "got": got,
		"err": err != nil, "errText": errText,
		"about": fmt.Sprintf("pattern %q options %+v", q.pat, q.opt)})
}

// compiles tells whether the standard parser accepts the pattern; patterns it
// refuses (such as too many repetitions) are left to the invalid pattern tests.
func compiles(pat string) bool {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return false
	}
	p, err := syntax.Compile(re.Simplify())
	return err == nil && len(p.Inst) < 1500
}

// ------------------------------------------------------------------ match

func smallTexts(alpha string, max int) []string {
	out := []string{""}
	last := []string{""}
	for l := 1; l <= max; l++ {
		var next []string
		for _, p := range last {
			for _, c := range alpha {
				next = append(next, p+string(c))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func corpusOf(texts []string) []*vfile {
	var fs []*vfile
	for i, t := range texts {
		fs = append(fs, textFile(fmt.Sprintf("d%02d/f%04d", i/50, i), t))
	}
	return fs
}

// smallNodes enumerates every expression over the atoms with the given depth.
func smallNodes(depth int) []*node {
	atoms := []*node{lit("a"), lit("b"), lit("ab"), leaf("any"), class(false, 'a', 'b'), class(true, 'a', 'a'),
		leaf("bol"), leaf("eol"), leaf("bot"), leaf("eot"), leaf("wb"), leaf("nwb"), leaf("empty")}
	level := atoms
	all := append([]*node{}, atoms...)
	for d := 0; d < depth; d++ {
		var next []*node
		for _, n := range level {
			next = append(next, un("star", n), un("plus", n), un("quest", n))
		}
		for _, n := range level {
			for _, m := range atoms {
				next = append(next, cat(n, m), alt(n, m))
				if d > 0 {
					next = append(next, cat(m, n), alt(m, n))
				}
			}
		}
		all = append(all, next...)
		level = next
	}
	return all
}

var mixAlpha = []rune("abcABC012 _-.")
var wideAlpha = []rune("abkKsS éÉßσςΣΑαжЖ日本\u212a\u017f😀\U00010400\U00010428")

func mutate(rng *rand.Rand, rs []rune, alpha []rune) []rune {
	out := append([]rune{}, rs...)
	for k := 1 + rng.Intn(2); k > 0; k-- {
		switch p := rng.Intn(3); {
		case p == 0 && len(out) > 0:
			i := rng.Intn(len(out))
			out = append(out[:i], out[i+1:]...)
		case p == 1 && len(out) > 0:
			out[rng.Intn(len(out))] = alpha[rng.Intn(len(alpha))]
		default:
			i := rng.Intn(len(out) + 1)
			out = append(out[:i], append([]rune{alpha[rng.Intn(len(alpha))]}, out[i:]...)...)
		}
	}
	return out
}

func clean(rs []rune) string {
	var b strings.Builder
	for _, r := range rs {
		if r == '\n' || r == 0 || !utf8.ValidRune(r) || r == utf8.RuneError {
			r = '~'
		}
		b.WriteRune(r)
	}
	return b.String()
}

// lineFor makes a line related to one of the expressions.
func lineFor(rng *rand.Rand, ns []*node, alpha []rune, fold bool) string {
	switch rng.Intn(9) {
	case 0:
		return ""
	case 1:
		return strings.Repeat(string(alpha[rng.Intn(len(alpha))]), 1+rng.Intn(3))
	}
	rs := ns[rng.Intn(len(ns))].sample(rng, alpha, fold && rng.Intn(2) == 0)
	if rng.Intn(3) == 0 {
		rs = mutate(rng, rs, alpha)
	}
	if len(rs) > 60 {
		rs = rs[:60]
	}
	s := clean(rs)
	o := &genOpts{alpha: alpha}
	switch rng.Intn(6) {
	case 0:
		s = clean(o.word(rng, 4)) + s
	case 1:
		s = s + clean(o.word(rng, 4))
	case 2:
		s = clean(o.word(rng, 3)) + " " + s + " " + clean(o.word(rng, 3))
	case 3:
		s += "\r"
	}
	return s
}

func randomCorpus(rng *rand.Rand, ns []*node, alpha []rune, fold bool, nfiles, nlines int) []*vfile {
	var fs []*vfile
	for i := 0; i < nfiles; i++ {
		var b strings.Builder
		n := rng.Intn(nlines + 1)
		for k := 0; k < n; k++ {
			b.WriteString(lineFor(rng, ns, alpha, fold))
			if k < n-1 || rng.Intn(3) > 0 {
				b.WriteByte('\n')
			}
		}
		fs = append(fs, textFile(fmt.Sprintf("p%d/q%d.go", i%3, i), b.String()))
	}
	return fs
}

// bigCorpus has files larger than the grep buffer with needles around the
// places where buffers grow.
func bigCorpus(rng *rand.Rand) []*vfile {
	var fs []*vfile
	for k, size := range []int{1<<20 - 5, 1 << 20, 1<<20 + 1, 2 << 20, 2<<20 + 77, 5 << 20} {
		f := &vfile{name: fmt.Sprintf("big%d.txt", k), term: k%2 == 0}
		fill := []string{"some filler text that is boring", "another filler line, longer than the other one", ""}
		total := 0
		put := func(l string, n int) { f.add(l, n); total += (len(l) + 1) * n }
		put("first needle here", 1)
		for total < size-4000 {
			want := 1 << 20
			for want-200 <= total {
				want += 1 << 20
			}
			if want > size {
				want = size
			}
			n := (want - 300 - total) / (len(fill[k%2]) + 1)
			if n <= 0 {
				break
			}
			put(fill[k%2], n)
			put(fmt.Sprintf("needle around %d", want), 1)
			put(fill[2], 3)
			for i := 0; i < 12; i++ {
				put(fmt.Sprintf("near %d", rng.Intn(100000)), 1)
				put("straddle needle "+strings.Repeat("x", rng.Intn(60)), 1)
			}
		}
		rest := size - total
		if rest > 30 {
			put("tail "+strings.Repeat("y", rest-30), 1)
		}
		put("last needle line", 1)
		f.fix()
		fs = append(fs, f)
	}
	return fs
}

func cmdMatch(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(1)
	id := 0
	do := func(b *built, q *query) {
		id++
		e.run(rec, b, fmt.Sprintf("m%d", id), q)
	}

	// every small expression on every small text
	texts := smallTexts("ab\n", pick(4, 5))
	texts = append(texts, smallTexts("a \n", 4)...)
	b := e.build(corpusOf(texts), nil)
	nodes := smallNodes(pick(1, 1))
	deep := smallNodes(2)
	for i := 0; i < pick(150, 3000); i++ {
		nodes = append(nodes, deep[rng.Intn(len(deep))])
	}
	for _, n := range nodes {
		do(b, &query{re: n, pat: n.render(nil, false)})
	}
	b.close()

	// random expressions with texts made for them
	for c := 0; c < pick(30, 400); c++ {
		alpha, fold := mixAlpha, rng.Intn(2) == 0
		if c%2 == 1 {
			alpha = wideAlpha
		}
		o := &genOpts{alpha: alpha, anchors: c%3 != 0, fold: fold, named: namedClasses()}
		var ns []*node
		var pats []string
		for len(ns) < 25 {
			n := o.gen(rng, 2+rng.Intn(9))
			if len(ns)%3 == 0 {
				n = triGen(rng, o)
			}
			p := n.render(rng, false)
			if compiles("(?i)(?m)"+p) && len(p) < 400 {
				ns, pats = append(ns, n), append(pats, p)
			}
		}
		b := e.build(randomCorpus(rng, ns, alpha, true, 12, 8), nil)
		for i, n := range ns {
			do(b, &query{re: n, pat: pats[i]})
			do(b, &query{re: n, pat: pats[i], opt: index.SearchOptions{IgnoreCase: true}})
		}
		b.close()
	}

	// literal searches, with text full of metacharacters
	meta := []rune(`a.b*c+d?()[]{}|\^$-/ "'&<>éÉkK` + "\u212a\t")
	for c := 0; c < pick(4, 40); c++ {
		o := &genOpts{alpha: meta}
		var ns []*node
		for len(ns) < 30 {
			ns = append(ns, &node{Op: "lit", R: o.word(rng, 1+rng.Intn(7))})
		}
		for _, x := range []string{`\E`, `a\Eb`, `\Q`, `\Qa.b\E`, `\Q\E.`, `(?i)a`, `(?-i)k`, `\x41`, `\n`, `\pL`, `a|`, `)(`, `[[:alpha:]]`, `\\`, `%s`, `"`, `a\`, `{1,2}`, `^$`, `\b`} {
			if (len(x)+c)%3 == 0 || c%4 == 3 {
				ns = append(ns, &node{Op: "lit", R: []rune(x)})
			}
		}
		b := e.build(randomCorpus(rng, ns, meta, true, 12, 8), nil)
		for _, n := range ns {
			for _, ic := range []bool{false, true} {
				do(b, &query{re: n, pat: string(n.R), opt: index.SearchOptions{LiteralSearch: true, IgnoreCase: ic}})
			}
		}
		do(b, &query{re: leaf("empty"), pat: "", opt: index.SearchOptions{LiteralSearch: true}})
		do(b, &query{re: leaf("empty"), pat: ""})
		b.close()
	}

	// every character for itself, and the ends of ranges
	chars := interestingRunes()
	var cfs []*vfile
	for k := 0; k < len(chars); k += 25 {
		f, g := &vfile{name: fmt.Sprintf("one%d", k), term: true}, &vfile{name: fmt.Sprintf("mid%d", k), term: true}
		for _, r := range chars[k:minInt(k+25, len(chars))] {
			f.add(string(r), 1)
			g.add("foo"+string(r)+"bar", 1)
		}
		f.fix()
		g.fix()
		cfs = append(cfs, f, g)
	}
	b = e.build(cfs, nil)
	var cns []*node
	for i, r := range chars {
		if r < 0x80 || i%pick(9, 1) == rng.Intn(pick(9, 1)) {
			cns = append(cns, lit(string(r)))
		}
		if i%pick(7, 1) == rng.Intn(pick(7, 1)) {
			cns = append(cns, lit("o"+string(r)+"b"))
		}
	}
	for k := 0; k < pick(70, 1500); k++ { // ranges between two of them, some longer
		i := rng.Intn(len(chars))
		if k%2 == 0 {
			i = rng.Intn(minInt(130, len(chars)))
		}
		j := i + rng.Intn(minInt(40, len(chars)-i))
		n := class(rng.Intn(4) == 0, chars[i], chars[j])
		if rng.Intn(3) == 0 {
			x := chars[rng.Intn(len(chars))]
			n.Ranges = append(n.Ranges, [2]rune{x, x})
		}
		switch rng.Intn(3) {
		case 0:
			cns = append(cns, n)
		case 1:
			cns = append(cns, cat(leaf("bol"), n, leaf("eol")))
		default:
			cns = append(cns, cat(lit("o"), n, lit("b")))
		}
	}
	for i, n := range cns {
		do(b, &query{re: n, pat: n.render(nil, false), opt: index.SearchOptions{IgnoreCase: i%2 == 0}})
		if n.Op == "lit" {
			do(b, &query{re: n, pat: n.render(nil, false), opt: index.SearchOptions{IgnoreCase: i%2 == 1}})
		}
	}
	b.close()

	// expressions that have very many states to be in
	var dfs []*vfile
	for i := 0; i < 6; i++ {
		f := &vfile{name: fmt.Sprintf("states%d", i), term: true}
		for k := 0; k < pick(100, 600); k++ {
			x := []byte(strings.Repeat("a", 60+rng.Intn(60)))
			for j := range x {
				x[j] = "aaaabbbb"[rng.Intn(8)]
				if rng.Intn(25) == 0 {
					x[j] = "cd"[rng.Intn(2)]
				}
			}
			f.add(string(x), 1)
		}
		f.fix()
		dfs = append(dfs, f)
	}
	b = e.build(dfs, nil)
	ab := func(n int) *node {
		x := un("rep", class(false, 'a', 'b'))
		x.Min, x.Max = n, n
		return x
	}
	for _, n := range []*node{cat(lit("a"), ab(7), lit("c")), cat(lit("a"), ab(9), lit("d")), cat(lit("a"), ab(13), lit("cb")),
		cat(lit("b"), ab(11), lit("aba"), ab(3), lit("dd")), cat(leaf("bol"), un("star", leaf("any")), lit("a"), ab(10), lit("c"), leaf("any"), leaf("eol"))} {
		do(b, &query{re: n, pat: n.render(nil, false)})
	}
	b.close()

	// files beyond the buffer size
	b = e.build(bigCorpus(rng), nil)
	for _, n := range []*node{lit("needle"), lit("straddle"), cat(leaf("bol"), lit("near")), lit("tail"),
		cat(leaf("bol"), leaf("eol")), lit("last needle line"), cat(lit("needle line"), leaf("eot")),
		cat(leaf("bot"), lit("first")), cat(leaf("bot"), lit("near")), lit("filler"), cat(lit("needle"), un("star", leaf("any")), lit("xx")),
		lit("nowhere to be found"), cat(lit("NEEDLE"), leaf("any"), lit("here"))} {
		for _, ic := range []bool{false, true} {
			do(b, &query{re: n, pat: n.render(nil, false), opt: index.SearchOptions{IgnoreCase: ic}})
		}
	}
	b.close()

	// as large as indexing allows
	var fs []*vfile
	for i, size := range []int{1<<25 - 40, 1<<24 + 77} {
		f := &vfile{name: fmt.Sprintf("huge%d", i), term: i == 0}
		f.add("needle at the start", 1)
		for k := 0; k < 4; k++ {
			f.add([]string{"0123456789abcdef0123456789abcdef", "the quick brown fox", "", "x"}[k], size/5/[]int{33, 20, 1 << 12, 1 << 10}[k])
			f.add(fmt.Sprintf("a needle %d", k), 1+rng.Intn(3))
		}
		n := (size - len(f.bytes()) - 40) / 33
		f.add("fedcba9876543210fedcba9876543210", n)
		f.add("the last needle", 1)
		f.fix()
		fs = append(fs, f)
	}
	b = e.build(fs, nil)
	for _, n := range []*node{lit("needle"), cat(lit("last needle"), leaf("eot")), lit("nowhere")} {
		do(b, &query{re: n, pat: n.render(nil, false)})
	}
	b.close()
	e.write()
	rec.close()
}

// interestingRunes are all of ASCII, the characters around every change of
// encoding length, and those with case variants in several scripts.
func interestingRunes() []rune {
	var out []rune
	for r := rune(0x20); r < 0x80; r++ {
		out = append(out, r)
	}
	out = append(out, '\t', '\r', '\v', 0x01, 0x1b)
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	for _, r := range []rune{0x80, 0x81, 0x85, 0xa0, 0xb5, 0xbf, 0xc0, 0xc5, 0xdf, 0xe0, 0xe5, 0xf7, 0xff, 0x100, 0x101, 0x130, 0x131, 0x17f, 0x1c4, 0x1c5, 0x1c6, 0x23a, 0x2c65, 0x345,
		0x390, 0x398, 0x3b8, 0x3bc, 0x3c2, 0x3c3, 0x3a3, 0x3d1, 0x3f4, 0x3bf, 0x3c0, 0x410, 0x42f, 0x430, 0x43f, 0x440, 0x44f, 0x450, 0x531, 0x561, 0x7fe, 0x7ff, 0x800, 0x801, 0xfff, 0x1000,
		0x10a0, 0x2d00, 0x13a0, 0xab70, 0x1e9e, 0x1e9b, 0x1fbe, 0x2028, 0x2126, 0x212a, 0x212b, 0x3000, 0x3fff, 0x4000, 0xa64a, 0x1c88, 0xcfff, 0xd000, 0xd7ff, 0xe000, 0xefff, 0xf000, 0xfeff, 0xff21, 0xff41, 0xffff,
		0x10000, 0x10001, 0x10400, 0x10428, 0x1e900, 0x1e922, 0x1f600, 0x3ffff, 0x40000, 0x7ffff, 0x80000, 0xbffff, 0xc0000, 0xfffff, 0x100000, 0x10fffe, 0x10ffff} {
		out = append(out, r)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	return out
}

// cmdStorm searches one index with many searches at a time.
func cmdStorm(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(9)
	id := 0
	for c := 0; c < pick(6, 60); c++ {
		alpha := mixAlpha
		if c%3 == 2 {
			alpha = wideAlpha
		}
		o := &genOpts{alpha: alpha, fold: true, named: namedClasses()}
		var qs []*query
		for len(qs) < pick(40, 80) {
			n := o.gen(rng, 2+rng.Intn(9))
			p := n.render(rng, false)
			if !compiles("(?i)(?m)"+p) || len(p) > 400 {
				continue
			}
			q := &query{re: n, pat: p}
			q.opt.IgnoreCase = rng.Intn(3) == 0
			switch rng.Intn(6) {
			case 0:
				q.inc, q.opt.FileRegexp = lit("p1"), "p1"
			case 1:
				q.exc, q.opt.ExcludeFileRegexp = lit("q2"), "q2"
			case 2:
				q.opt.Offset, q.opt.Limit = rng.Intn(3), 1+rng.Intn(3)
			case 3:
				q.opt.MaxResults = 1 + rng.Intn(5)
			}
			q.opt.LinesOfContext = uint(rng.Intn(4))
			q.full = true
			qs = append(qs, q)
		}
		var ns []*node
		for _, q := range qs {
			ns = append(ns, q.re)
		}
		b := e.build(randomCorpus(rng, ns, alpha, true, 20, 14), nil)
		// in every round the same search and others, all at once
		type answer struct {
			q   *query
			res *index.SearchResponse
			err error
		}
		told := map[string]bool{}
		for _, q := range qs {
			const n = 12
			as := make([]answer, n)
			for i := range as {
				as[i].q = q
				if i >= n/2 {
					as[i].q = qs[rng.Intn(len(qs))]
				}
			}
			gate := make(chan bool)
			var wg sync.WaitGroup
			for i := range as {
				wg.Add(1)
				go func(a *answer) {
					defer wg.Done()
					opt := a.q.opt
					<-gate
					a.res, a.err = b.ix.Search(a.q.pat, &opt)
				}(&as[i])
			}
			close(gate)
			wg.Wait()
			for _, a := range as {
				if a.res != nil {
					a.res.Duration = 0
				}
				k, _ := json.Marshal([]interface{}{a.q.pat, a.q.opt, a.res, fmt.Sprint(a.err)})
				if !told[string(k)] {
					told[string(k)] = true
					id++
					e.record(rec, b, fmt.Sprintf("s%d", id), a.q, a.res, a.err)
				}
			}
		}
		b.close()
	}
	e.write()
	rec.close()
}

func init() { commands["storm"] = cmdStorm }
func init() { commands["match"] = cmdMatch }
