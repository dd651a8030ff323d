package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	stdregexp "regexp"
	"regexp/syntax"
	"strings"
	"sync"

	cindex "github.com/hound-search/hound/codesearch/index"
	cregexp "github.com/hound-search/hound/codesearch/regexp"
	"github.com/hound-search/hound/index"
)

func triBytes(t string) []int { return bytesOf(t) }

func queryJSON(q *cindex.Query) map[string]interface{} {
	ops := map[cindex.QueryOp]string{cindex.QAll: "all", cindex.QNone: "none", cindex.QAnd: "and", cindex.QOr: "or"}
	tri, sub := []interface{}{}, []interface{}{}
	for _, t := range q.Trigram {
		tri = append(tri, triBytes(t))
	}
	for _, s := range q.Sub {
		sub = append(sub, queryJSON(s))
	}
	return map[string]interface{}{"op": ops[q.Op], "tri": tri, "sub": sub}
}

func qholds(q *cindex.Query, s string) bool {
	switch q.Op {
	case cindex.QAll:
		return true
	case cindex.QNone:
		return false
	case cindex.QAnd:
		for _, t := range q.Trigram {
			if !strings.Contains(s, t) {
				return false
			}
		}
		for _, x := range q.Sub {
			if !qholds(x, s) {
				return false
			}
		}
		return true
	}
	for _, t := range q.Trigram {
		if strings.Contains(s, t) {
			return true
		}
	}
	for _, x := range q.Sub {
		if qholds(x, s) {
			return true
		}
	}
	return false
}

func querySize(q *cindex.Query) int {
	n := len(q.Trigram) + 1
	for _, s := range q.Sub {
		n += querySize(s)
	}
	return n
}

// triGen makes expressions that stress the analysis: exact sets around the
// thresholds, alternations of exact and inexact parts, short pieces.
func triGen(rng *rand.Rand, o *genOpts) *node {
	word := func(n int) *node { return &node{Op: "lit", R: o.word(rng, n), Fold: o.fold && rng.Intn(5) == 0} }
	set := func() *node { // an exact set of some size
		switch rng.Intn(4) {
		case 0:
			a := o.alpha[rng.Intn(len(o.alpha))]
			return class(false, a, a+rune(rng.Intn(9)))
		case 1:
			n := leaf("alt")
			for k := 2 + rng.Intn(9); k > 0; k-- {
				n.Subs = append(n.Subs, word(4))
			}
			return n
		case 2:
			return un("quest", word(3))
		}
		return cat(word(3), class(false, 'a', 'a'+rune(rng.Intn(8))))
	}
	var piece func(d int) *node
	piece = func(d int) *node {
		switch rng.Intn(12) {
		case 0, 1:
			return word(1 + rng.Intn(5))
		case 2, 3:
			return set()
		case 4:
			return un([]string{"star", "plus", "quest"}[rng.Intn(3)], word(3))
		case 5:
			return cat(word(4), un("star", leaf("any")), word(4))
		case 6:
			if d > 0 {
				n := leaf("alt")
				for k := 2 + rng.Intn(3); k > 0; k-- {
					n.Subs = append(n.Subs, piece(d-1))
				}
				return n
			}
		case 7:
			if d > 0 {
				n := un("rep", piece(d-1))
				n.Min, n.Max = rng.Intn(3), 3
				return n
			}
		case 8:
			if d > 0 {
				return un([]string{"plus", "quest", "star"}[rng.Intn(3)], piece(d-1))
			}
		case 9:
			if o.anchors {
				return leaf([]string{"bol", "eol", "wb", "nwb", "empty", "bot", "eot"}[rng.Intn(7)])
			}
		case 10:
			return o.gen(rng, 1+rng.Intn(4))
		}
		n := leaf("cat")
		for k := 2 + rng.Intn(2); k > 0; k-- {
			if d > 0 {
				n.Subs = append(n.Subs, piece(d-1))
			} else {
				n.Subs = append(n.Subs, word(3))
			}
		}
		return n
	}
	n := leaf("cat")
	for k := 1 + rng.Intn(3); k > 0; k-- {
		n.Subs = append(n.Subs, piece(2))
	}
	return n
}

func analyzed(pat string, fold bool) (*cindex.Query, error) {
	re, err := syntax.Parse(index.GetRegexpPattern(pat, fold), syntax.Perl)
	if err != nil {
		return nil, err
	}
	return cindex.RegexpQuery(re), nil
}

// cmdTrigram compares queries with texts that match.
func cmdTrigram(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	var mu sync.Mutex
	id, susp, pairs, suspStd, suspNot := 0, 0, 0, 0, 0
	put := func(n *node, fold bool, pat string, q *cindex.Query, s string, h bool) {
		mu.Lock()
		defer mu.Unlock()
		id++
		e.orbits.addNode(n)
		e.orbits.addText(s)
		rec.put(map[string]interface{}{"id": fmt.Sprintf("t%d", id), "kind": "line", "re": n.json(), "fold": fold,
			"query": queryJSON(q), "line": cps(s), "holds": h,
			"about": fmt.Sprintf("pattern %q ignore-case %v line %q query %s", pat, fold, s, q)})
	}
	tiny := []rune("ab")
	small := []rune("abcdq")
	alphas := [][]rune{tiny, small, mixAlpha, wideAlpha, []rune("kKsSéÉßſ\u212aab")}
	jobs := pick(9000, 200000)
	parallel(jobs, 8, func(j int) {
		rng := newRand(7000000 + int64(j))
		alpha := alphas[j%len(alphas)]
		o := &genOpts{alpha: alpha, anchors: j%3 == 0, fold: j%2 == 0, named: namedClasses()}
		np := 0
		for k := 0; k < 40; k++ {
			var n *node
			if k%4 == 0 {
				n = o.gen(rng, 2+rng.Intn(10))
			} else {
				n = triGen(rng, o)
			}
			fold := rng.Intn(3) == 0
			pat := n.render(rng, false)
			if len(pat) > 500 {
				continue
			}
			q, err := analyzed(pat, fold)
			if err != nil {
				continue
			}
			for m := 0; m < 12; m++ {
				rs := n.sample(rng, alpha, fold)
				if len(rs) > 80 {
					continue
				}
				s := clean(rs)
				np++
				h := qholds(q, s)
				if !h {
					mu.Lock()
					susp++
					// the library's own matcher sorts, TLC decides
					std := false
					if re, err := stdregexp.Compile(index.GetRegexpPattern(pat, fold)); err == nil {
						std = re.MatchString(s)
					}
					send := false
					if std {
						suspStd++
						send = suspStd <= 300
					} else {
						suspNot++
						send = suspNot <= 300
					}
					mu.Unlock()
					if send {
						put(n, fold, pat, q, s, h)
					}
				} else if rng.Intn(jobs*300) < 900 && querySize(q) < 400 {
					put(n, fold, pat, q, s, h)
				}
			}
		}
		mu.Lock()
		pairs += np
		mu.Unlock()
	})

	// analysis and compilation never crash, whatever the pattern
	parallel(pick(400, 20000), 8, func(j int) {
		rng := newRand(9000000 + int64(j))
		toks := []string{"a", "b", "ab", "(", ")", "[", "]", "|", "*", "+", "?", "{2}", "{0,3}", "{1,}", ".", "^", "$", `\b`, `\B`, `\A`, `\z`, `\d`, `\pL`,
			"(?i)", "(?s)", "(?-m)", "(?:", "[^", "-", "é", "K", "\u212a", "\n", `\x{10ffff}`, `\Q.\E`, "[[:^alpha:]]", "", "\xff", `\C`, "(?U)"}
		for k := 0; k < 300; k++ {
			p := ""
			for m := rng.Intn(12); m >= 0; m-- {
				p += toks[rng.Intn(len(toks))]
			}
			if q, err := analyzed(p, k%2 == 0); err == nil {
				_ = q.String()
			}
			if k%10 == 0 {
				if re, err := cregexp.Compile(index.GetRegexpPattern(p, k%4 == 0)); err == nil {
					re.MatchString("ab\n\xffab é", true, true)
				}
			}
		}
	})

	// end to end: what the index proposes
	rng := newRand(8)
	for c := 0; c < pick(20, 300); c++ {
		alpha := alphas[c%len(alphas)]
		o := &genOpts{alpha: alpha, anchors: true, fold: c%2 == 0, named: namedClasses()}
		var ns []*node
		var pats []string
		for len(ns) < 15 {
			n := triGen(rng, o)
			if p := n.render(rng, false); len(p) < 400 && compiles("(?i)"+p) {
				ns, pats = append(ns, n), append(pats, p)
			}
		}
		files := randomCorpus(rng, ns, alpha, true, 14, 5)
		b := e.build(files, nil)
		ci := cindex.Open(filepath.Join(b.dir, "idx", "tri"))
		for i, n := range ns {
			fold := rng.Intn(2) == 0
			re, err := cregexp.Compile(index.GetRegexpPattern(pats[i], fold))
			must(err)
			fs := []int{}
			for _, f := range ci.PostingQuery(cindex.RegexpQuery(re.Syntax)) {
				fs = append(fs, b.order[ci.Name(f)])
			}
			e.orbits.addNode(n)
			id++
			rec.put(map[string]interface{}{"id": fmt.Sprintf("t%d", id), "kind": "files", "re": n.json(), "fold": fold,
				"corpus": b.corpus, "files": fs, "about": fmt.Sprintf("pattern %q ignore-case %v", pats[i], fold)})
		}
		ci.Close()
		b.close()
	}
	e.write()
	rec.close()
	must(os.WriteFile(filepath.Join(outDir, "stats.json"), []byte(fmt.Sprintf(`{"pairs":%d,"suspicious":%d}`, pairs, susp)), 0644))
}

func init() { commands["trigram"] = cmdTrigram }
