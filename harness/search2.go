package main

import (
	"fmt"
	"math"
	"math/rand"
	"strings"

	"github.com/hound-search/hound/index"
)

// lineSeqs enumerates the files of up to max lines over the given lines,
// with and without a final newline.
func lineSeqs(lines []string, max int) []string {
	var out []string
	last := []string{""}
	out = append(out, "")
	seen := map[string]bool{"": true}
	for l := 1; l <= max; l++ {
		var next []string
		for _, p := range last {
			for _, x := range lines {
				next = append(next, p+x+"\n")
			}
		}
		for _, t := range next {
			for _, u := range []string{t, strings.TrimSuffix(t, "\n")} {
				if !seen[u] {
					seen[u] = true
					out = append(out, u)
				}
			}
		}
		last = next
	}
	return out
}

func chunks(ts []string, n int) [][]string {
	var out [][]string
	for len(ts) > n {
		out = append(out, ts[:n])
		ts = ts[n:]
	}
	return append(out, ts)
}

// cmdCtx records searches with every match's context.
func cmdCtx(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(3)
	id := 0
	do := func(b *built, q *query) {
		id++
		q.full = true
		e.run(rec, b, fmt.Sprintf("c%d", id), q)
	}

	// every small file, every small number of context lines
	texts := lineSeqs([]string{"", "a", "b"}, pick(5, 6))
	pats := []*node{lit("a"), cat(leaf("bol"), leaf("eol")), alt(lit("b"), cat(leaf("bol"), leaf("eol"))), leaf("any"), leaf("empty")}
	for _, ts := range chunks(texts, 120) {
		b := e.build(corpusOf(ts), nil)
		for i, n := range pats {
			for k, ctx := range []uint{0, 1, 2, 3, 20} {
				if !thorough() && i >= 2 && k != (i%3)+1 {
					continue
				}
				do(b, &query{re: n, pat: n.render(nil, false), opt: index.SearchOptions{LinesOfContext: ctx}})
			}
		}
		b.close()
	}

	// random texts, with blank and repeated lines, cuts by offset, limit and cap
	for c := 0; c < pick(30, 400); c++ {
		alpha := mixAlpha
		if c%2 == 1 {
			alpha = wideAlpha
		}
		o := &genOpts{alpha: alpha, anchors: false, named: namedClasses()}
		var ns []*node
		for len(ns) < 6 {
			n := o.gen(rng, 1+rng.Intn(5))
			if compiles("(?i)(?m)" + n.render(nil, false)) {
				ns = append(ns, n)
			}
		}
		var fs []*vfile
		for i := 0; i < 8; i++ {
			var sb strings.Builder
			n := rng.Intn(40)
			for k := 0; k < n; k++ {
				switch rng.Intn(4) {
				case 0:
					for j := rng.Intn(4); j > 0; j-- {
						sb.WriteByte('\n')
					}
				default:
					sb.WriteString(lineFor(rng, ns, alpha, true))
				}
				if k < n-1 || rng.Intn(2) == 0 {
					sb.WriteByte('\n')
				}
			}
			fs = append(fs, textFile(fmt.Sprintf("d%d/f%d", i%2, i), sb.String()))
		}
		b := e.build(fs, nil)
		for _, n := range ns {
			pat := n.render(rng, false)
			for k := 0; k < 2; k++ {
				opt := index.SearchOptions{IgnoreCase: rng.Intn(2) == 0, LinesOfContext: uint(rng.Intn(21))}
				if rng.Intn(3) == 0 {
					opt.LinesOfContext = uint(rng.Intn(4))
				}
				if rng.Intn(4) == 0 {
					opt.Offset, opt.Limit = rng.Intn(3), rng.Intn(4)
				}
				if rng.Intn(4) == 0 {
					opt.MaxResults = 1 + rng.Intn(12)
				}
				do(b, &query{re: n, pat: pat, opt: opt})
			}
		}
		b.close()
	}

	// long lines, within what indexing accepts
	for c := 0; c < pick(2, 10); c++ {
		var fs []*vfile
		for i := 0; i < 3; i++ {
			var ls []string
			for k := 0; k < 45; k++ {
				ls = append(ls, []string{"", "x", "a needle here", "plain text", "needle"}[rng.Intn(5)])
			}
			for _, n := range []int{1990, 2100, 4100, 5000 + rng.Intn(15000)} {
				words := []string{"wörd ", "needle ", "w ", "ab"}
				if rng.Intn(2) == 0 {
					words = words[2:]
				}
				var sb strings.Builder
				for sb.Len() < n {
					sb.WriteString(words[rng.Intn(len(words))])
				}
				at := rng.Intn(len(ls))
				ls[at] = sb.String()
				if at > 0 && rng.Intn(2) == 0 {
					ls[at-1] = "needle before"
				}
				if at+1 < len(ls) && rng.Intn(2) == 0 {
					ls[at+1] = "needle after"
				}
			}
			fs = append(fs, textFile(fmt.Sprintf("long%d", i), strings.Join(ls, "\n")+[]string{"", "\n"}[rng.Intn(2)]))
		}
		b := e.build(fs, nil)
		for _, ctx := range []uint{0, 1, 2, 7} {
			do(b, &query{re: lit("needle"), pat: "needle", opt: index.SearchOptions{LinesOfContext: ctx}})
			do(b, &query{re: cat(leaf("bol"), lit("needle")), pat: "^needle", opt: index.SearchOptions{LinesOfContext: ctx}})
		}
		b.close()
	}

	// beyond the buffer size
	var fs []*vfile
	for i, size := range []int{1<<20 + 10, 3 << 20} {
		f := &vfile{name: fmt.Sprintf("big%d", i), term: i == 0}
		total := 0
		put := func(l string, n int) { f.add(l, n); total += (len(l) + 1) * n }
		put("", 1)
		put("", 1)
		put("needle 0", 1)
		for total < size {
			put(fmt.Sprintf("filler %d with some more text", total%7), 3000+rng.Intn(20000))
			put("", 1+rng.Intn(3))
			put("needle x", 1)
			put("between", rng.Intn(3))
			put(fmt.Sprintf("needle %d", rng.Intn(99)), 1)
			put("", rng.Intn(3))
		}
		put("needle end", 1)
		f.fix()
		fs = append(fs, f)
	}
	b := e.build(fs, nil)
	for _, ctx := range []uint{0, 1, 2, 5, 20} {
		do(b, &query{re: lit("needle"), pat: "needle", opt: index.SearchOptions{LinesOfContext: ctx}})
	}
	b.close()
	e.write()
	rec.close()
}

// cmdPage records searches with offsets, limits and caps.
func cmdPage(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(4)
	id := 0
	do := func(b *built, q *query) {
		id++
		e.run(rec, b, fmt.Sprintf("p%d", id), q)
	}
	for c := 0; c < pick(8, 80); c++ {
		nf := 1 + rng.Intn(12)
		if c%4 == 3 {
			nf = 40
		}
		if c == 0 {
			nf = 5
		}
		var fs []*vfile
		total := 0
		for i := 0; i < nf; i++ {
			var sb strings.Builder
			n := rng.Intn(7)
			m := 0
			for k := 0; k < n; k++ {
				if rng.Intn(2) == 0 {
					fmt.Fprintf(&sb, "hit %d\n", rng.Intn(3))
					m++
				} else {
					sb.WriteString("miss it\n")
				}
			}
			total += m
			fs = append(fs, textFile(fmt.Sprintf("%c/f%d", 'a'+rng.Intn(3), i), sb.String()))
		}
		b := e.build(fs, nil)
		n := lit("hit")
		use := func(off, lim, max int) {
			o := index.SearchOptions{Offset: off, Limit: lim, MaxResults: max, LinesOfContext: uint(rng.Intn(3))}
			q := &query{re: n, pat: "hit", opt: o}
			if rng.Intn(5) == 0 {
				q.inc = cat(leaf("bot"), class(false, 'a', 'b'))
				q.opt.FileRegexp = "^[ab]"
			}
			if rng.Intn(5) == 0 {
				q.exc = lit("f1")
				q.opt.ExcludeFileRegexp = "f1"
			}
			do(b, q)
		}
		if nf <= 6 {
			for off := 0; off <= nf+1; off++ {
				for lim := 0; lim <= nf+1; lim++ {
					for max := 0; max <= total+1; max++ {
						use(off, lim, max)
					}
				}
			}
		} else {
			for k := 0; k < pick(80, 250); k++ {
				max := 0
				if rng.Intn(2) == 0 {
					max = rng.Intn(total + 2)
				}
				use(rng.Intn(nf+2), rng.Intn(nf+2), max)
			}
			use(0, 0, 0)
			use(1<<31-1, 1<<31-1, 0)
			use(0, 1<<31-1, 1<<31-1)
			for _, big := range []int{math.MaxInt32 - 1, math.MaxInt32, 1 << 31, 1<<32 - 1, 1 << 32, math.MaxInt64 - 1, math.MaxInt64} {
				use(1+rng.Intn(3), big, 0)
				use(0, big, rng.Intn(4))
				use(big, rng.Intn(4), 0)
				use(rng.Intn(3), rng.Intn(6), big)
				use(1, big, big)
			}
		}
		b.close()
	}
	e.write()
	rec.close()
}

var pathAlpha = []rune("abcAB.-_/ 01é")

func randPath(rng *rand.Rand) string {
	parts := []string{"a", "b", "ab", "src", "test", "main", "x y", "é", "A", "[x]", "v1.2", "a.b"}
	exts := []string{"", ".go", ".c", ".js", "_test.go", ".A", ".go.bak"}
	var s []string
	for k := 1 + rng.Intn(4); k > 0; k-- {
		p := parts[rng.Intn(len(parts))]
		if rng.Intn(4) == 0 {
			p += parts[rng.Intn(len(parts))]
		}
		s = append(s, p)
	}
	s[len(s)-1] += exts[rng.Intn(len(exts))]
	return strings.Join(s, "/")
}

var badPatterns = []string{"(", ")", "[", "[a", "a[", "*", "+a", "?", "a**", "a{2,1}", "a{1001}", "(?P<n",
	"[z-a]", "[[:foo:]]", `\8`, `\`, `\pX`, "(?z)", "a\xff", "(a", "a)", "(?i", "((((", "x{1,2}{3}{4}*+", `[\b]`, "(?=a)", "(?<!a)b", `\xZ`}

// cmdPath records searches with path filters, and with invalid patterns.
func cmdPath(args []string) {
	e := &searchEnv{orbits: orbitSet{}}
	rec := newRecorder("recs.ndjson")
	rng := newRand(5)
	id := 0
	do := func(b *built, q *query) {
		id++
		e.run(rec, b, fmt.Sprintf("f%d", id), q)
	}
	text := func() string { return []string{"hit\n", "hit me\nhit", "miss\n", "hit", "x\nhit\n"}[rng.Intn(5)] }
	type pp struct {
		n *node
		p string
	}
	fixed := []*node{lit("a"), cat(leaf("bot"), lit("a")), cat(lit("go"), leaf("eot")), cat(leaf("bot"), lit("a"), leaf("eot")),
		cat(leaf("bot"), leaf("eot")), leaf("bot"), leaf("eot"), leaf("empty"), leaf("any"), cat(lit("/"), un("plus", class(true, '/', '/')), leaf("eot")),
		cat(lit("."), alt(lit("go"), lit("c")), leaf("eot")), lit("A"), lit("/"), cat(leaf("wb"), lit("a"), leaf("wb")), un("star", lit("zz")),
		leaf("none"), lit("é"), cat(leaf("bol"), lit("x")), &node{Op: "lit", R: []rune("SRC"), Fold: true}, lit("nothing like it")}
	for c := 0; c < pick(14, 150); c++ {
		have := map[string]bool{}
		dirs := map[string]bool{}
		var fs []*vfile
		for len(fs) < 25 {
			p := randPath(rng)
			if c == 1 && rng.Intn(3) == 0 {
				p = p + "\n" + []string{"a", "b.go", "x"}[rng.Intn(3)]
			}
			bad := have[p] || dirs[p]
			for i := range p {
				if p[i] == '/' && have[p[:i]] {
					bad = true
				}
			}
			if bad {
				continue
			}
			have[p] = true
			for i := range p {
				if p[i] == '/' {
					dirs[p[:i]] = true
				}
			}
			fs = append(fs, textFile(p, text()))
		}
		b := e.build(fs, nil)
		o := &genOpts{alpha: pathAlpha, anchors: true, fold: true}
		var ps []pp
		for _, n := range fixed {
			ps = append(ps, pp{n, n.render(rng, true)})
		}
		for len(ps) < 45 {
			n := o.gen(rng, 1+rng.Intn(6))
			if rng.Intn(2) == 0 { // make it describe one of the paths
				w := []rune(strings.Split(fs[rng.Intn(len(fs))].name, "\n")[0])
				i := rng.Intn(len(w))
				n = &node{Op: "lit", R: w[i : i+1+rng.Intn(len(w)-i)]}
				switch rng.Intn(4) {
				case 0:
					n = cat(leaf("bot"), n)
				case 1:
					n = cat(n, leaf("eot"))
				case 2:
					n = cat(n, un("star", leaf("any")), leaf("eot"))
				}
			}
			if p := n.render(rng, true); compiles(p) {
				ps = append(ps, pp{n, p})
			}
		}
		pick1 := func() *pp { return &ps[rng.Intn(len(ps))] }
		hit := lit("hit")
		for i := range ps {
			for k := 0; k < 3; k++ {
				q := &query{re: hit, pat: "hit"}
				var inc, exc *pp
				switch k {
				case 0:
					inc = &ps[i]
				case 1:
					exc = &ps[i]
				case 2:
					inc, exc = pick1(), &ps[i]
				}
				if inc != nil {
					q.inc, q.opt.FileRegexp = inc.n, inc.p
				}
				if exc != nil {
					q.exc, q.opt.ExcludeFileRegexp = exc.n, exc.p
				}
				q.opt.IgnoreCase = rng.Intn(2) == 0 // concerns the content only
				q.opt.LiteralSearch = rng.Intn(4) == 0
				if rng.Intn(6) == 0 {
					q.opt.Limit = 1 + rng.Intn(3)
					q.opt.Offset = rng.Intn(3)
				}
				do(b, q)
			}
		}
		if c < 3 || thorough() {
			for _, bad := range badPatterns {
				for k := 0; k < 6; k++ {
					q := &query{pat: "hit", wantErr: true}
					q.opt.Limit, q.opt.MaxResults = rng.Intn(3), rng.Intn(3)
					q.opt.IgnoreCase = rng.Intn(2) == 0
					switch k {
					case 0:
						q.pat = bad
					case 1:
						q.opt.FileRegexp = bad
					case 2:
						q.opt.ExcludeFileRegexp = bad
					case 3:
						q.opt.FileRegexp, q.opt.ExcludeFileRegexp, q.pat = bad, "a", "not in any file"
					case 4:
						q.opt.FileRegexp, q.opt.ExcludeFileRegexp = "no such path", bad
					case 5:
						q.pat, q.opt.FileRegexp = bad, "no such path"
					}
					do(b, q)
				}
				// taken verbatim, it is a fine search
				if !strings.Contains(bad, "\xff") {
					do(b, &query{re: lit(bad), pat: bad, opt: index.SearchOptions{LiteralSearch: true}})
				}
			}
		}
		b.close()
	}
	e.write()
	rec.close()
}

func init() {
	commands["ctx"] = cmdCtx
	commands["page"] = cmdPage
	commands["path"] = cmdPath
}
