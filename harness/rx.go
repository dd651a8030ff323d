package main

import (
	"fmt"
	"math/rand"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// node is a regular expression as the specification sees it.
type node struct {
	Op     string
	R      []rune
	Fold   bool
	Neg    bool
	Ranges [][2]rune
	Subs   []*node
	Sub    *node
	Min    int
	Max    int
	text   string // how a class is written, if not derived from Ranges
}

func (n *node) json() map[string]interface{} {
	m := map[string]interface{}{"op": n.Op}
	switch n.Op {
	case "lit":
		rs := []int{}
		for _, r := range n.R {
			rs = append(rs, int(r))
		}
		m["r"] = rs
		m["fold"] = n.Fold
	case "class":
		m["ranges"] = n.Ranges
		m["neg"] = n.Neg
		m["fold"] = n.Fold
	case "cat", "alt":
		subs := []interface{}{}
		for _, s := range n.Subs {
			subs = append(subs, s.json())
		}
		m["subs"] = subs
	case "star", "plus", "quest":
		m["sub"] = n.Sub.json()
	case "rep":
		m["sub"] = n.Sub.json()
		m["min"] = n.Min
		m["max"] = n.Max
	}
	return m
}

func lit(s string) *node          { return &node{Op: "lit", R: []rune(s)} }
func leaf(op string) *node        { return &node{Op: op} }
func cat(s ...*node) *node        { return &node{Op: "cat", Subs: s} }
func alt(s ...*node) *node        { return &node{Op: "alt", Subs: s} }
func un(op string, s *node) *node { return &node{Op: op, Sub: s} }
func class(neg bool, rs ...rune) *node {
	n := &node{Op: "class", Neg: neg}
	for i := 0; i+1 < len(rs); i += 2 {
		n.Ranges = append(n.Ranges, [2]rune{rs[i], rs[i+1]})
	}
	return n
}

func escRune(r rune, inClass bool) string {
	if r < 0x80 && (unicode.IsLetter(r) || unicode.IsDigit(r) || r == ' ' || r == '_') {
		return string(r)
	}
	if r >= 0x80 && !inClass {
		return string(r)
	}
	return fmt.Sprintf(`\x{%x}`, r)
}

// render writes the expression; path patterns use ^ and $ for the text ends.
func (n *node) render(rng *rand.Rand, path bool) string {
	grp := func(s string) string {
		if rng != nil && rng.Intn(3) == 0 {
			return "(" + s + ")"
		}
		return "(?:" + s + ")"
	}
	lazy := func() string {
		if rng != nil && rng.Intn(4) == 0 {
			return "?"
		}
		return ""
	}
	switch n.Op {
	case "lit":
		s := regexp.QuoteMeta(string(n.R))
		if rng != nil && rng.Intn(5) == 0 {
			s = ""
			for _, r := range n.R {
				s += escRune(r, false)
			}
		}
		if n.Fold {
			return "(?i:" + s + ")"
		}
		return s
	case "any":
		return "."
	case "class":
		s := n.text
		if s == "" {
			var b strings.Builder
			b.WriteByte('[')
			if n.Neg {
				b.WriteByte('^')
			}
			for _, r := range n.Ranges {
				b.WriteString(escRune(r[0], true))
				if r[1] != r[0] {
					b.WriteByte('-')
					b.WriteString(escRune(r[1], true))
				}
			}
			b.WriteByte(']')
			s = b.String()
		}
		if n.Fold {
			return "(?i:" + s + ")"
		}
		return s
	case "cat":
		s := ""
		for _, c := range n.Subs {
			t := c.render(rng, path)
			if c.Op == "alt" {
				t = grp(t)
			}
			s += t
		}
		if s == "" {
			return "(?:)"
		}
		return s
	case "alt":
		var ss []string
		for _, c := range n.Subs {
			t := c.render(rng, path)
			if c.Op == "alt" {
				t = grp(t)
			}
			ss = append(ss, t)
		}
		return strings.Join(ss, "|")
	case "star":
		return grp(n.Sub.render(rng, path)) + "*" + lazy()
	case "plus":
		return grp(n.Sub.render(rng, path)) + "+" + lazy()
	case "quest":
		return grp(n.Sub.render(rng, path)) + "?" + lazy()
	case "rep":
		q := fmt.Sprintf("{%d,%d}", n.Min, n.Max)
		if n.Max < 0 {
			q = fmt.Sprintf("{%d,}", n.Min)
		} else if n.Max == n.Min {
			q = fmt.Sprintf("{%d}", n.Min)
		}
		return grp(n.Sub.render(rng, path)) + q + lazy()
	case "empty":
		return "(?:)"
	case "none":
		return `[^\x00-\x{10FFFF}]`
	case "bol":
		if path {
			return "(?m:^)"
		}
		return "^"
	case "eol":
		if path {
			return "(?m:$)"
		}
		return "$"
	case "bot":
		if path && (rng == nil || rng.Intn(2) == 0) {
			return "^"
		}
		if rng != nil && rng.Intn(3) == 0 {
			return "(?-m:^)"
		}
		return `\A`
	case "eot":
		if path && (rng == nil || rng.Intn(2) == 0) {
			return "$"
		}
		if rng != nil && rng.Intn(3) == 0 {
			return "(?-m:$)"
		}
		return `\z`
	case "wb":
		return `\b`
	case "nwb":
		return `\B`
	}
	panic("render " + n.Op)
}

func orbit(r rune) []int {
	out := []int{int(r)}
	for f := unicode.SimpleFold(r); f != r; f = unicode.SimpleFold(f) {
		out = append(out, int(f))
	}
	return out
}

func refold(rng *rand.Rand, r rune, fold bool) rune {
	if !fold {
		return r
	}
	o := orbit(r)
	return rune(o[rng.Intn(len(o))])
}

func (n *node) has(r rune) bool {
	in := func(x rune) bool {
		for _, g := range n.Ranges {
			if g[0] <= x && x <= g[1] {
				return true
			}
		}
		return false
	}
	h := in(r)
	if n.Fold {
		for _, o := range orbit(r) {
			h = h || in(rune(o))
		}
	}
	return h != n.Neg
}

// sample produces a string that the expression should match (anchors are
// taken as empty, so the specification decides whether it really does).
func (n *node) sample(rng *rand.Rand, alpha []rune, fold bool) []rune {
	switch n.Op {
	case "lit":
		out := make([]rune, len(n.R))
		for i, r := range n.R {
			out[i] = refold(rng, r, fold || n.Fold)
		}
		return out
	case "any":
		return []rune{alpha[rng.Intn(len(alpha))]}
	case "class":
		if n.Neg || rng.Intn(3) == 0 {
			for try := 0; try < 20; try++ {
				r := alpha[rng.Intn(len(alpha))]
				if n.has(r) {
					return []rune{r}
				}
			}
			if n.Neg {
				return []rune{'#'}
			}
		}
		if len(n.Ranges) == 0 {
			return nil
		}
		g := n.Ranges[rng.Intn(len(n.Ranges))]
		return []rune{refold(rng, g[0]+rune(rng.Intn(int(g[1]-g[0])+1)), fold || n.Fold)}
	case "cat":
		var out []rune
		for _, s := range n.Subs {
			out = append(out, s.sample(rng, alpha, fold)...)
		}
		return out
	case "alt":
		return n.Subs[rng.Intn(len(n.Subs))].sample(rng, alpha, fold)
	case "star", "plus", "quest", "rep":
		lo, hi := 0, 3
		switch n.Op {
		case "plus":
			lo = 1
		case "quest":
			hi = 1
		case "rep":
			lo, hi = n.Min, n.Max
			if hi < 0 {
				hi = lo + 2
			}
		}
		k := lo + rng.Intn(hi-lo+1)
		var out []rune
		for i := 0; i < k; i++ {
			out = append(out, n.Sub.sample(rng, alpha, fold)...)
		}
		return out
	}
	return nil
}

func (n *node) walk(fn func(*node)) {
	fn(n)
	if n.Sub != nil {
		n.Sub.walk(fn)
	}
	for _, s := range n.Subs {
		s.walk(fn)
	}
}

// perl and unicode classes as ranges
func namedClasses() []*node {
	mk := func(text string, neg bool, rs ...rune) *node {
		n := class(neg, rs...)
		n.text = text
		return n
	}
	greek := &node{Op: "class", text: `\p{Greek}`}
	add := func(lo, hi, stride rune) {
		if stride == 1 {
			greek.Ranges = append(greek.Ranges, [2]rune{lo, hi})
			return
		}
		for c := lo; c <= hi; c += stride {
			greek.Ranges = append(greek.Ranges, [2]rune{c, c})
		}
	}
	for _, r := range unicode.Greek.R16 {
		add(rune(r.Lo), rune(r.Hi), rune(r.Stride))
	}
	for _, r := range unicode.Greek.R32 {
		add(rune(r.Lo), rune(r.Hi), rune(r.Stride))
	}
	return []*node{
		mk(`\d`, false, '0', '9'),
		mk(`\D`, true, '0', '9'),
		mk(`\w`, false, '0', '9', 'A', 'Z', '_', '_', 'a', 'z'),
		mk(`\W`, true, '0', '9', 'A', 'Z', '_', '_', 'a', 'z'),
		mk(`\s`, false, '\t', '\n', '\f', '\r', ' ', ' '),
		mk(`\S`, true, '\t', '\n', '\f', '\r', ' ', ' '),
		mk(`[[:alpha:]]`, false, 'A', 'Z', 'a', 'z'),
		mk(`[[:punct:]]`, false, '!', '/', ':', '@', '[', '`', '{', '~'),
		greek,
	}
}

// genOpts shapes random expressions.
type genOpts struct {
	alpha   []rune
	anchors bool
	fold    bool
	named   []*node
}

func (o *genOpts) word(rng *rand.Rand, max int) []rune {
	n := 1 + rng.Intn(max)
	out := make([]rune, n)
	for i := range out {
		out[i] = o.alpha[rng.Intn(len(o.alpha))]
	}
	return out
}

func (o *genOpts) gen(rng *rand.Rand, size int) *node {
	if size <= 1 {
		switch k := rng.Intn(20); {
		case k < 10:
			return &node{Op: "lit", R: o.word(rng, 4), Fold: o.fold && rng.Intn(4) == 0}
		case k < 12:
			return leaf("any")
		case k < 16:
			if len(o.named) > 0 && rng.Intn(5) == 0 {
				c := *o.named[rng.Intn(len(o.named))]
				return &c
			}
			n := &node{Op: "class", Neg: rng.Intn(4) == 0, Fold: o.fold && rng.Intn(4) == 0}
			for i := 1 + rng.Intn(3); i > 0; i-- {
				a := o.alpha[rng.Intn(len(o.alpha))]
				b := a
				if rng.Intn(2) == 0 {
					b = a + rune(rng.Intn(4))
				}
				n.Ranges = append(n.Ranges, [2]rune{a, b})
			}
			return n
		case k < 19 && o.anchors:
			return leaf([]string{"bol", "eol", "bot", "eot", "wb", "nwb", "empty"}[rng.Intn(7)])
		case k == 19 && rng.Intn(8) == 0:
			return leaf("none")
		}
		return &node{Op: "lit", R: o.word(rng, 2)}
	}
	switch k := rng.Intn(12); {
	case k < 5:
		m := 2 + rng.Intn(2)
		n := leaf("cat")
		for i := 0; i < m; i++ {
			n.Subs = append(n.Subs, o.gen(rng, (size-1)/m+rng.Intn(2)))
		}
		return n
	case k < 8:
		m := 2 + rng.Intn(3)
		n := leaf("alt")
		for i := 0; i < m; i++ {
			n.Subs = append(n.Subs, o.gen(rng, (size-1)/m+rng.Intn(2)))
		}
		return n
	case k == 8:
		return un("star", o.gen(rng, size-1))
	case k == 9:
		return un("plus", o.gen(rng, size-1))
	case k == 10:
		return un("quest", o.gen(rng, size-1))
	}
	n := un("rep", o.gen(rng, size-1))
	n.Min = rng.Intn(4)
	n.Max = n.Min + rng.Intn(3)
	if rng.Intn(4) == 0 {
		n.Max = -1
	}
	if n.Max == 0 {
		n.Max = 1
	}
	return n
}

// orbitList collects the folding orbits of every code point seen.
type orbitSet map[rune]bool

func (o orbitSet) addText(s string) {
	for _, r := range s {
		o[r] = true
	}
}

func (o orbitSet) addNode(n *node) {
	n.walk(func(x *node) {
		for _, r := range x.R {
			o[r] = true
		}
	})
}

func (o orbitSet) list() [][]interface{} {
	var keys []int
	seen := map[int]bool{}
	for r := range o {
		for _, x := range orbit(r) {
			if !seen[x] {
				seen[x] = true
				keys = append(keys, x)
			}
		}
	}
	sort.Ints(keys)
	out := [][]interface{}{}
	for _, k := range keys {
		ob := orbit(rune(k))
		if len(ob) > 1 {
			out = append(out, []interface{}{k, ob})
		}
	}
	if len(out) == 0 {
		out = append(out, []interface{}{65, []int{65, 97}})
	}
	return out
}
