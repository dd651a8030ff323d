package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sort"
	"strings"

	cindex "github.com/hound-search/hound/codesearch/index"
)

type exception struct {
	at      int
	content []byte
}

// fileSet describes many files briefly.
type fileSet struct {
	n       int
	classes [][]byte
	exc     []exception
	bad     map[int]bool // before these, a file that is refused
}

func (f *fileSet) content(i int, x map[int][]byte) []byte {
	if c, ok := x[i]; ok {
		return c
	}
	return f.classes[i%len(f.classes)]
}

func (f *fileSet) json() map[string]interface{} {
	cl, ex := []interface{}{}, []interface{}{}
	for _, c := range f.classes {
		cl = append(cl, bytesOf(string(c)))
	}
	for _, e := range f.exc {
		ex = append(ex, []interface{}{e.at, bytesOf(string(e.content))})
	}
	return map[string]interface{}{"n": f.n, "classes": cl, "exc": ex}
}

func apRuns(l []uint32) [][3]int {
	out := [][3]int{}
	for i := 0; i < len(l); {
		if i+1 == len(l) {
			out = append(out, [3]int{int(l[i]), 1, 1})
			break
		}
		step := int(l[i+1]) - int(l[i])
		j := i + 1
		for j+1 < len(l) && int(l[j+1])-int(l[j]) == step {
			j++
		}
		if j == i+1 && i+2 < len(l) { // a pair may start a better run one later
			out = append(out, [3]int{int(l[i]), 1, 1})
			i++
			continue
		}
		out = append(out, [3]int{int(l[i]), step, j - i + 1})
		i = j + 1
	}
	return out
}

func triNum(t string) int { return int(t[0])<<16 | int(t[1])<<8 | int(t[2]) }

func queryNumJSON(q *cindex.Query) map[string]interface{} {
	ops := map[cindex.QueryOp]string{cindex.QAll: "all", cindex.QNone: "none", cindex.QAnd: "and", cindex.QOr: "or"}
	tri, sub := []int{}, []interface{}{}
	for _, t := range q.Trigram {
		tri = append(tri, triNum(t))
	}
	for _, s := range q.Sub {
		sub = append(sub, queryNumJSON(s))
	}
	return map[string]interface{}{"op": ops[q.Op], "tri": tri, "sub": sub}
}

func randQuery(rng *rand.Rand, tris []string, d int) *cindex.Query {
	pickT := func() string { return tris[rng.Intn(len(tris))] }
	if d == 0 && rng.Intn(8) == 0 {
		return &cindex.Query{Op: []cindex.QueryOp{cindex.QAll, cindex.QNone}[rng.Intn(2)]}
	}
	q := &cindex.Query{Op: []cindex.QueryOp{cindex.QAnd, cindex.QOr}[rng.Intn(2)]}
	for k := rng.Intn(4); k > 0; k-- {
		q.Trigram = append(q.Trigram, pickT())
	}
	if d > 0 {
		for k := rng.Intn(3); k > 0; k-- {
			q.Sub = append(q.Sub, randQuery(rng, tris, d-1))
		}
	}
	if len(q.Trigram)+len(q.Sub) == 0 {
		q.Trigram = []string{pickT()}
	}
	return q
}

// postingRecord builds an index of the files and asks it questions.
func postingRecord(rng *rand.Rand, id string, f *fileSet, maxAsk int, about string) map[string]interface{} {
	dir, err := os.MkdirTemp(outDir, "post")
	must(err)
	defer os.RemoveAll(dir)
	x := map[int][]byte{}
	for _, e := range f.exc {
		x[e.at] = e.content
	}
	p := filepath.Join(dir, "tri")
	w := cindex.Create(p)
	var paths []string
	for k := rng.Intn(3); k > 0; k-- {
		paths = append(paths, fmt.Sprintf("path%d/é", k))
	}
	w.AddPaths(paths)
	name := func(i int) string {
		switch {
		case i%1000 == 7:
			return fmt.Sprintf("dir/%s/é %d\n", strings.Repeat("long", i%50), i)
		}
		return fmt.Sprintf("f%d", i)
	}
	for i := 0; i < f.n; i++ {
		if f.bad[i] {
			if r, err := w.Add(fmt.Sprintf("bad%d", i), bytes.NewReader([]byte("abc \xff\xff def"))); r == "" && err == nil {
				return map[string]interface{}{"id": id, "files": f.json(), "answers": []interface{}{}, "names": []int{1}, "readback": []int{}, "paths": []int{}, "readpaths": []int{},
					"about": about + ": a file with invalid text was accepted"}
			}
		}
		r, err := w.Add(name(i), bytes.NewReader(f.content(i, x)))
		sut(err, "adding a file to an index")
		if r != "" {
			return map[string]interface{}{"id": id, "files": f.json(), "answers": []interface{}{}, "names": []int{1}, "readback": []int{}, "paths": []int{}, "readpaths": []int{},
				"about": about + fmt.Sprintf(": file %d was refused: %s", i, r)}
		}
	}
	sut(w.Flush(), "writing an index")
	w.Close()
	ix := cindex.Open(p)
	defer ix.Close()

	set := map[string]bool{}
	addTri := func(c []byte) {
		for i := 0; i+3 <= len(c); i++ {
			set[string(c[i:i+3])] = true
		}
	}
	for _, c := range f.classes {
		addTri(c)
	}
	for _, e := range f.exc {
		addTri(e.content)
	}
	var tris []string
	for t := range set {
		tris = append(tris, t)
	}
	sort.Strings(tris)
	rng.Shuffle(len(tris), func(i, j int) { tris[i], tris[j] = tris[j], tris[i] })
	ask := tris
	if len(ask) > maxAsk {
		ask = ask[:maxAsk]
	}
	for k := 0; k < 12; k++ { // and some that are nowhere
		ask = append(ask, string([]byte{byte(rng.Intn(256)), byte(rng.Intn(256)), byte(rng.Intn(256))}))
	}
	ask = append(ask, "\x00\x00\x00", "\xff\xff\xff", "\x00\x00\x01", "\xff\xff\xfe")
	answers := []interface{}{}
	put := func(q *cindex.Query, l []uint32) {
		answers = append(answers, map[string]interface{}{"q": queryNumJSON(q), "runs": apRuns(l)})
	}
	for _, t := range ask {
		put(&cindex.Query{Op: cindex.QAnd, Trigram: []string{t}}, ix.PostingList(uint32(triNum(t))))
	}
	for k := 0; k < 30; k++ {
		t, u, v := ask[rng.Intn(len(ask))], ask[rng.Intn(len(ask))], ask[rng.Intn(len(ask))]
		and := ix.PostingAnd(ix.PostingList(uint32(triNum(t))), uint32(triNum(u)))
		put(&cindex.Query{Op: cindex.QAnd, Trigram: []string{t, u}}, and)
		or := ix.PostingOr(ix.PostingList(uint32(triNum(t))), uint32(triNum(u)))
		put(&cindex.Query{Op: cindex.QOr, Trigram: []string{t, u}}, or)
		put(&cindex.Query{Op: cindex.QAnd, Trigram: []string{v}, Sub: []*cindex.Query{{Op: cindex.QOr, Trigram: []string{t, u}}}},
			ix.PostingAnd(or, uint32(triNum(v))))
		q := randQuery(rng, ask, 2)
		put(q, ix.PostingQuery(q))
	}
	put(&cindex.Query{Op: cindex.QAll}, ix.PostingQuery(&cindex.Query{Op: cindex.QAll}))

	names, back := []interface{}{}, []interface{}{}
	for k := 0; k < 60 && f.n > 0; k++ {
		i := rng.Intn(f.n)
		if k < 2 {
			i = k * (f.n - 1)
		}
		names = append(names, bytesOf(name(i)))
		back = append(back, bytesOf(ix.Name(uint32(i))))
	}
	ps, rps := []interface{}{}, []interface{}{}
	for _, s := range paths {
		ps = append(ps, bytesOf(s))
	}
	for _, s := range ix.Paths() {
		rps = append(rps, bytesOf(s))
	}
	return map[string]interface{}{"id": id, "files": f.json(), "answers": answers, "names": names, "readback": back, "paths": ps, "readpaths": rps,
		"about": fmt.Sprintf("%s: %d files, %d classes, %d exceptions", about, f.n, len(f.classes), len(f.exc))}
}

func randText(rng *rand.Rand, alpha string, n int) []byte {
	rs := []rune(alpha)
	var b bytes.Buffer
	for b.Len() < n {
		b.WriteRune(rs[rng.Intn(len(rs))])
	}
	return b.Bytes()
}

func cmdPosting(args []string) {
	rec := newRecorder("recs.ndjson")
	type job struct {
		id  string
		run func() map[string]interface{}
	}
	var jobs []job
	add := func(id, about string, salt int64, maxAsk int, mk func(rng *rand.Rand) *fileSet) {
		jobs = append(jobs, job{id, func() map[string]interface{} {
			rng := newRand(salt)
			f := mk(rng)
			return postingRecord(rng, id, f, maxAsk, about)
		}})
	}
	// small sets with arbitrary contents; several are built at the same time
	for i := 0; i < pick(60, 600); i++ {
		add(fmt.Sprintf("s%d", i), "small files", 50000+int64(i), 400, func(rng *rand.Rand) *fileSet {
			f := &fileSet{n: rng.Intn(40), bad: map[int]bool{}}
			if i%10 == 0 {
				f.n = i / 10
			}
			al := []string{"ab", "abc\n", "aéb€", "abcdefgh \n", "\x00a", "\x7f~}|{"}[i%6]
			for k := 0; k < f.n || k == 0; k++ {
				f.classes = append(f.classes, randText(rng, al, rng.Intn(60)))
				if rng.Intn(6) == 0 {
					f.bad[k] = true
				}
			}
			return f
		})
	}
	// many files: gaps of all sizes
	for i := 0; i < pick(6, 40); i++ {
		add(fmt.Sprintf("g%d", i), "gaps", 60000+int64(i), 400, func(rng *rand.Rand) *fileSet {
			f := &fileSet{n: []int{300, 17000, 40000, 129, 128, 16500}[i%6]}
			for k := 1 + rng.Intn(7); k > 0; k-- {
				f.classes = append(f.classes, randText(rng, "abc", rng.Intn(12)))
			}
			at := map[int]bool{0: true, f.n - 1: true}
			for k := 0; k < 8; k++ {
				at[rng.Intn(f.n)] = true
			}
			for _, g := range []int{1, 126, 127, 128, 129, 16382, 16383, 16384, 16385} {
				if g < f.n {
					at[g] = true
				}
				if f.n-1-g > 0 {
					at[f.n-1-g] = true
				}
			}
			// lists with exactly such gaps
			tags := map[int]string{}
			for k, g := range []int{126, 127, 128, 129, 16382, 16383, 16384, 16385} {
				for _, a := range []int{-1, rng.Intn(f.n)} {
					if a+g < f.n {
						at[a+g] = true
						t := fmt.Sprintf("%c%c%c", 'A'+k, 'P'+a%3, 'Z')
						tags[a+g] += t
						if a >= 0 {
							at[a] = true
							tags[a] += t
						}
					}
				}
			}
			var as []int
			for a := range at {
				as = append(as, a)
			}
			sort.Ints(as)
			for _, a := range as {
				f.exc = append(f.exc, exception{a, append(randText(rng, "xyz", 2+rng.Intn(5)), tags[a]...)})
			}
			return f
		})
	}
	add("huge", "more than two million files", 61000, 100, func(rng *rand.Rand) *fileSet {
		n := 1<<21 + 300
		f := &fileSet{n: n, classes: [][]byte{[]byte("abc")}}
		for _, a := range []int{0, 1<<21 - 2, 1<<21 - 1, 1 << 21, 1<<21 + 1, n - 1} {
			f.exc = append(f.exc, exception{a, randText(rng, "xyz", 3+rng.Intn(3))})
		}
		f.exc = append([]exception{{f.exc[0].at, []byte("first")}}, f.exc[1:]...)
		for k := range f.exc[1:] { // alone in its list
			f.exc[1+k].content = append(f.exc[1+k].content, fmt.Sprintf("only%c", 'A'+k)...)
		}
		return f
	})
	// more postings than the memory buffer holds
	for i := 0; i < pick(2, 8); i++ {
		add(fmt.Sprintf("spill%d", i), "spilling to disk", 62000+int64(i), 120, func(rng *rand.Rand) *fileSet {
			f := &fileSet{n: 1100*(1+i) + rng.Intn(50)}
			al := "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLM"
			for k := 0; k < 5+i; k++ {
				f.classes = append(f.classes, randText(rng, al, 9000))
			}
			for k := 0; k < 5; k++ {
				f.exc = append(f.exc, exception{f.n * k / 5, randText(rng, "αβγ", 40)})
			}
			return f
		})
	}
	out := make([]map[string]interface{}, len(jobs))
	order := newRand(63).Perm(len(jobs))
	parallel(len(jobs), 8, func(k int) { out[order[k]] = jobs[order[k]].run() })
	for _, r := range out {
		rec.put(r)
	}
	rec.close()
}

// ------------------------------------------------------------------ merge

type mfile struct {
	name    string
	content []byte
}

type mindex struct {
	paths []string
	files []mfile
}

func (m *mindex) write(p string) {
	w := cindex.Create(p)
	w.AddPaths(m.paths)
	for _, f := range m.files {
		r, err := w.Add(f.name, bytes.NewReader(f.content))
		sut(err, "adding a file to an index")
		if r != "" {
			die("refused %s: %s", f.name, r)
		}
	}
	sut(w.Flush(), "writing an index")
	w.Close()
}

func (m *mindex) json() map[string]interface{} {
	ps, fs := []interface{}{}, []interface{}{}
	for _, p := range m.paths {
		ps = append(ps, bytesOf(p))
	}
	for _, f := range m.files {
		fs = append(fs, []interface{}{bytesOf(f.name), bytesOf(string(f.content))})
	}
	return map[string]interface{}{"paths": ps, "files": fs}
}

func randMIndex(rng *rand.Rand, n int) *mindex {
	pp := []string{"/a", "/a/b", "/ab", "/b", "/b/c", "/c", "/", "/a/b/c", "/é", "/ê", "/è", "/d~", "/d", "/d\x7f", "/ü", "/√"}
	m := &mindex{}
	seen := map[string]bool{}
	for k := rng.Intn(4) + 1; k > 0; k-- {
		p := pp[rng.Intn(len(pp))]
		if !seen[p] {
			seen[p] = true
			m.paths = append(m.paths, p)
		}
	}
	sort.Strings(m.paths)
	if rng.Intn(12) == 0 {
		m.paths = nil
		return m
	}
	names := map[string]bool{}
	for k := 0; k < n; k++ {
		s := m.paths[rng.Intn(len(m.paths))]
		for j := rng.Intn(3); j > 0; j-- {
			s += []string{"/", "/x", "/b", "c", "/y.go", "é", "~", "\x7f"}[rng.Intn(8)]
		}
		names[s] = true
	}
	var ns []string
	for s := range names {
		ns = append(ns, s)
	}
	sort.Strings(ns)
	for _, s := range ns {
		m.files = append(m.files, mfile{s, randText(rng, []string{"ab", "abc", "xyz", "aé"}[rng.Intn(4)], rng.Intn(14))})
	}
	return m
}

func cmdMerge(args []string) {
	rec := newRecorder("recs.ndjson")
	n := pick(400, 6000)
	out := make([][]map[string]interface{}, n)
	// the index as it reads
	lists := func(ix *cindex.Index, ms ...*mindex) (map[string]interface{}, *mindex) {
		names, ps, ls := []interface{}{}, []interface{}{}, []interface{}{}
		got := &mindex{paths: ix.Paths()}
		for _, id := range ix.PostingQuery(&cindex.Query{Op: cindex.QAll}) {
			names = append(names, bytesOf(ix.Name(id)))
			got.files = append(got.files, mfile{name: ix.Name(id)})
		}
		for _, p := range ix.Paths() {
			ps = append(ps, bytesOf(p))
		}
		set := map[string]bool{"\x00\x00\x00": true, "\xff\xff\xff": true, "zzz": true}
		for _, m := range ms {
			for _, f := range m.files {
				for i := 0; i+3 <= len(f.content); i++ {
					set[string(f.content[i:i+3])] = true
				}
			}
		}
		for t := range set {
			l := []int{}
			for _, x := range ix.PostingList(uint32(triNum(t))) {
				l = append(l, int(x))
			}
			ls = append(ls, []interface{}{triNum(t), l})
		}
		return map[string]interface{}{"names": names, "paths": ps, "lists": ls}, got
	}
	parallel(n, 8, func(i int) {
		rng := newRand(70000 + int64(i))
		dir, err := os.MkdirTemp(outDir, "merge")
		must(err)
		defer os.RemoveAll(dir)
		size := 12
		if i%20 == 0 {
			size = 200
		}
		a := randMIndex(rng, rng.Intn(size+1))
		pa := filepath.Join(dir, "a0")
		a.write(pa)
		for k := 0; k < 1+rng.Intn(3); k++ { // merging into the result of a merge, too
			b := randMIndex(rng, rng.Intn(size+1))
			pb, pc := filepath.Join(dir, fmt.Sprintf("b%d", k)), filepath.Join(dir, fmt.Sprintf("a%d", k+1))
			b.write(pb)
			r := map[string]interface{}{"id": fmt.Sprintf("m%d.%d", i, k), "a": a.json(), "b": b.json(),
				"about": fmt.Sprintf("merging %q with newer %q", a.paths, b.paths)}
			crashed := ""
			func() {
				defer func() {
					if p := recover(); p != nil {
						crashed = fmt.Sprint(p)
					}
				}()
				cindex.Merge(pc, pa, pb)
			}()
			if crashed != "" {
				r["about"] = r["about"].(string) + ": panic " + crashed
				r["res"] = map[string]interface{}{"names": []interface{}{"panic"}, "paths": []interface{}{}, "lists": []interface{}{}}
				out[i] = append(out[i], r)
				break
			}
			ix := cindex.Open(pc)
			res, got := lists(ix, a, b)
			ix.Close()
			r["res"] = res
			out[i] = append(out[i], r)
			// contents for the next round
			have := map[string][]byte{}
			for _, f := range a.files {
				have[f.name] = f.content
			}
			for _, f := range b.files {
				have[f.name] = f.content
			}
			for j := range got.files {
				got.files[j].content = have[got.files[j].name]
			}
			a, pa = got, pc
		}
	})
	for _, rs := range out {
		for _, r := range rs {
			rec.put(r)
		}
	}
	rec.close()
}

func init() {
	commands["posting"] = cmdPosting
	commands["merge"] = cmdMerge
}
