package main

// Generators: grammars (arbitrary, LL(1), BNF-expressible), sentences, inputs.

import (
	"fmt"
	"math/bits"
	"strings"

	"pgregory.net/rapid"
)

var coin = rapid.Bool()

// uni draws (nearly) uniformly from 0..n-1. rapid's own integer and
// SampledFrom generators favour small values, which would starve the rare
// branches of the generators, so the value is put together from coin flips.
func uni(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	b := bits.Len(uint(n - 1))
	if n&(n-1) != 0 {
		b += 3
	}
	v := 0
	for i := 0; i < b; i++ {
		v <<= 1
		if coin.Draw(t, "") {
			v |= 1
		}
	}
	return v * n >> b
}

// rng draws uniformly from lo..hi.
func rng(t *rapid.T, lo, hi int) int { return lo + uni(t, hi-lo+1) }

// pct is true with p percent; false is the simpler value.
func pct(t *rapid.T, p int) bool {
	if p <= 0 {
		return false
	}
	if p >= 100 {
		return true
	}
	return uni(t, 100) >= 100-p
}

// weighted picks an index by weight.
func weighted(t *rapid.T, w ...int) int {
	s := 0
	for _, x := range w {
		s += x
	}
	k := uni(t, s)
	for i, x := range w {
		if k < x {
			return i
		}
		k -= x
	}
	return len(w) - 1
}

func oneOf[X any](t *rapid.T, xs ...X) X { return xs[uni(t, len(xs))] }

func perm(t *rapid.T, n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := i - uni(t, i+1) // 0 keeps the element in place
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- alphabets

const (
	alphaTiny = iota
	alphaSmall
	alphaLetters
	alphaBoundary
	alphaAll
	alphaPrint
	alphaMeta
)

var boundaryBytes = []byte{'a', 'b', 1, 31, 32, 47, 48, 63, 64, 65, 95, 96, 126, 127, 128, 129, 159, 160, 191, 192, 193, 223, 224, 253, 254, 255}
var metaBytes = []byte("ab\"'\\<>|:= \t\r\n")

func alphabet(t *rapid.T, kind int) []byte {
	switch kind {
	case alphaTiny:
		return []byte("ab")
	case alphaSmall:
		return []byte("abcd")
	case alphaLetters:
		return []byte("abcdefghijklmnopqrstuvwxyz0123456789")
	case alphaBoundary:
		return boundaryBytes
	case alphaMeta:
		return metaBytes
	case alphaPrint:
		r := []byte{}
		for b := 32; b < 127; b++ {
			r = append(r, byte(b))
		}
		return append(r, '\t', '\n', '\r')
	}
	r := []byte("a")
	for b := 1; b < 256; b++ {
		r = append(r, byte(b))
	}
	return r
}

// GOpt steers grammar generation.
type GOpt struct {
	BNF   bool // only what the textual notation can express
	Small bool // keep it small
	MaxR  int  // 0: default
	Prod  bool // make all rules productive
}

var oddNames = []string{"", "a b", "<x>", "A>", "\"", "é", "\x00", "::=", "_literal", "_nothing", "0", "-", "Unknown_0", "%d%s", "a\nb"}

// wellKnown are names that code may be tempted to give a meaning.
var wellKnown = []string{"EOL", "EOF", "EOS", "eol", "eof", "eos", "end", "END", "epsilon", "eps", "lambda", "empty", "EMPTY", "nothing", "Nothing", "null", "nil",
	"any", "ANY", "digit", "letter", "char", "character", "alpha", "alnum", "string", "literal", "terminal", "space", "spaces", "whitespace", "ws", "opt-whitespace",
	"newline", "nl", "NEWLINE", "CR", "LF", "CRLF", "tab", "S", "Start", "start", "root", "syntax", "rule", "rules", "line-end", "error", "comment", "skip", "ignore", "Unknown", "e"}

const nameChars = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"

func genNames(t *rapid.T, n int, bnf bool) []string {
	res := make([]string, n)
	used := map[string]bool{}
	style := weighted(t, 60, 25, 15)
	for i := range res {
		var s string
		switch {
		case style == 0 && n <= 26:
			s = string(rune('A' + i))
		case style == 0:
			s = fmt.Sprintf("R%d", i)
		case style == 1:
			// prefixes and near-equal names
			l := rng(t, 1, 4)
			b := []byte{nameChars[oneOf(t, 0, 1, 26, 27, 51)]}
			for len(b) < l {
				b = append(b, nameChars[oneOf(t, 0, 26, 52, 61, 62)])
			}
			s = string(b)
		default:
			if pct(t, 30) {
				s = wellKnown[uni(t, len(wellKnown))]
			} else if bnf {
				l := rng(t, 1, 20)
				b := []byte{nameChars[uni(t, 52)]}
				for len(b) < l {
					b = append(b, nameChars[uni(t, 63)])
				}
				s = string(b)
			} else {
				s = oddNames[uni(t, len(oddNames))]
			}
		}
		for used[s] {
			s += fmt.Sprintf("x%d", i)
		}
		used[s] = true
		res[i] = s
	}
	return res
}

// specials are byte strings that text-minded code treats specially.
var specials = []string{"\xef\xbb\xbf", "\r\n", "\n", "\r", "\xff\xfe", "\xfe\xff", "\xef\xbf\xbd",
	"\xc3\xa9", "\xc3", "\xc0\x80", "\x1a", "\x04", "\xe2\x80\xa8", "\xc2\x85", "\xc2\xa0", " ", "\t", "%", "%s", "ε", "λ", "''", "\"\"", "EOF", "EOL", "$", "#", "\\n", "\x1b[0m", "\x7f\x00"}

// genTerm draws a terminal text that does not start with NUL.
func genTerm(t *rapid.T, al []byte, bnf bool) string {
	if !bnf && pct(t, 2) {
		return specials[uni(t, len(specials))]
	}
	var n int
	switch weighted(t, 70, 25, 5) {
	case 0:
		n = 1
	case 1:
		n = rng(t, 2, 4)
	default:
		n = rng(t, 5, 40)
		if pct(t, 10) {
			n = oneOf(t, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300)
		}
	}
	b := make([]byte, n)
	for i := range b {
		b[i] = al[uni(t, len(al))]
		if i > 0 && !bnf && pct(t, 1) {
			b[i] = 0
		}
	}
	return string(b)
}

// genGram draws a well-formed grammar, LL(1) or not.
func genGram(t *rapid.T, o GOpt) Gram {
	var al []byte
	kinds := []int{alphaTiny, alphaSmall, alphaLetters, alphaBoundary, alphaAll, alphaMeta}
	if o.BNF {
		kinds = []int{alphaTiny, alphaSmall, alphaLetters, alphaPrint, alphaPrint, alphaMeta}
		al = alphabet(t, kinds[weighted(t, 20, 30, 15, 15, 5, 15)])
	} else {
		al = alphabet(t, kinds[weighted(t, 20, 30, 15, 15, 10, 10)])
	}
	var n int
	switch weighted(t, 15, 60, 22, 3) {
	case 0:
		n = rng(t, 1, 2)
	case 1:
		n = rng(t, 2, 6)
	case 2:
		n = rng(t, 5, 14)
	default:
		n = rng(t, 15, 40)
	}
	if o.Small && n > 6 {
		n = 6
	}
	if o.MaxR > 0 && n > o.MaxR {
		n = o.MaxR
	}
	names := genNames(t, n, o.BNF)
	dag := pct(t, 60)            // before a terminal, refer to later rules only
	epsP := oneOf(t, 15, 35, 60) // chance of an empty alternative per rule
	nonP := oneOf(t, 40, 60, 75) // chance that a symbol is a rule
	maxAlts := oneOf(t, 2, 3, 5)
	maxSyms := oneOf(t, 2, 3, 5)
	g := make(Gram, n)
	for i := range g {
		g[i].Head = Raw(names[i])
		na := rng(t, 1, maxAlts)
		epsAt := -1
		if pct(t, epsP) {
			epsAt = uni(t, na+1)
		}
		for j := 0; j < na; j++ {
			if j == epsAt {
				g[i].Alts = append(g[i].Alts, []Sym{Eps})
			}
			ns := rng(t, 1, maxSyms)
			alt := []Sym{}
			afterT := false
			for k := 0; k < ns; k++ {
				p := nonP
				if pct(t, p) && !(dag && !afterT && i == n-1) {
					lo := 0
					if dag && !afterT {
						lo = i + 1
					}
					alt = append(alt, N(names[rng(t, lo, n-1)]))
				} else {
					alt = append(alt, T(genTerm(t, al, o.BNF)))
					afterT = true
				}
			}
			g[i].Alts = append(g[i].Alts, alt)
		}
		if epsAt == na {
			g[i].Alts = append(g[i].Alts, []Sym{Eps})
		}
	}
	// spread rule order so that dependencies run both ways
	if pct(t, 50) {
		p := perm(t, n-1)
		h := make(Gram, n)
		h[0] = g[0]
		for i, x := range p {
			h[x+1] = g[i+1]
		}
		g = h
	}
	if o.Prod {
		g = makeProductive(g, al)
	}
	return g
}

// freshFor picks a byte that no alternative of rule i starts with and that
// cannot follow it, preferring the alphabet.
func freshFor(a *Analysis, i int, al []byte, bnf bool) (byte, bool) {
	used := a.first[i]
	used.union(a.follow[i])
	for _, b := range al {
		if b != 0 && !used.has(int(b)) {
			return b, true
		}
	}
	for b := int('a'); b < 127; b++ {
		if !used.has(b) {
			return byte(b), true
		}
	}
	for b := int('!'); b < 127; b++ {
		if !used.has(b) {
			return byte(b), true
		}
	}
	if !bnf {
		for b := 1; b < 256; b++ {
			if !used.has(b) {
				return byte(b), true
			}
		}
	}
	return 0, false
}

func makeProductive(g Gram, al []byte) Gram {
	for it := 0; it <= len(g); it++ {
		a := analyze(g)
		done := true
		for i := range g {
			if !a.prod[i] {
				done = false
				b, ok := freshFor(a, i, al, false)
				if !ok {
					b = al[0]
				}
				g[i].Alts = append(g[i].Alts, []Sym{T(string([]byte{b}))})
				break
			}
		}
		if done {
			break
		}
	}
	return g
}

// repair turns a well-formed grammar into an LL(1) one, removing one conflict
// at a time. It returns the result and the last grammar that still had a
// conflict (nil if there was none). ok is false if it gave up.
func repair(g Gram, al []byte, bnf bool) (res Gram, last Gram, ok bool) {
	g = g.clone()
	n := 0
	for _, r := range g {
		n += len(r.Alts)
	}
	for it := 0; it < 8*n+20; it++ {
		a := analyze(g)
		if len(a.conf) == 0 {
			if a.dormant() {
				return nil, nil, false
			}
			return g, last, true
		}
		last = g.clone()
		c := a.conf[0]
		r := c.rule
		fresh, found := freshFor(a, r, al, bnf)
		if !found {
			return nil, nil, false
		}
		f := T(string([]byte{fresh}))
		// prefer making the later alternative distinguishable
		fix := func(j int) bool {
			alt := g[r].Alts[j]
			if alt[0].K == KNil {
				return false
			}
			if alt[0].K == KTerm && a.altNull[r][c.i+c.j-j] && !a.altFirst[r][c.i+c.j-j].has(int(alt[0].S[0])) {
				return false // literal start versus an empty alternative: handle below
			}
			g[r].Alts[j] = append([]Sym{f}, alt...)
			return true
		}
		if it%2 == 0 && fix(c.j) || fix(c.i) || fix(c.j) {
			continue
		}
		// one side is nullable: make it non-empty
		for _, j := range []int{c.j, c.i} {
			if a.altNull[r][j] {
				if g[r].Alts[j][0].K == KNil {
					g[r].Alts[j] = []Sym{f}
				} else {
					g[r].Alts[j] = append([]Sym{f}, g[r].Alts[j]...)
				}
				break
			}
		}
	}
	return nil, nil, false
}

// simple is the grammar used when repairing fails.
var simple = Gram{{"S", [][]Sym{{T("a"), N("S")}, {Eps}}}}

// genBuilt draws a grammar whose rules begin with distinct bytes, so that rows
// of optional rules survive, repairs what still conflicts, and then merges
// bytes while the grammar stays LL(1).
func genBuilt(t *rapid.T, o GOpt) Gram {
	var pool []byte
	switch {
	case o.BNF:
		pool = []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-*/(){}[]<>|\"'\\ \t\n\r:=!#$%&,.;?@^_`~")
	case pct(t, 50):
		pool = []byte("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-*/(){}[]<>|")
	default:
		off := uni(t, 255)
		for i := 0; i < 255; i++ {
			pool = append(pool, byte(1+(off+i)%255))
		}
	}
	pi := 0
	fresh := func() string {
		b := pool[pi%len(pool)]
		pi++
		if pct(t, 12) {
			return string([]byte{b, pool[uni(t, len(pool))]})
		}
		return string([]byte{b})
	}
	n := oneOf(t, 2, 3, 4, 5, 6, 8, 12)
	if o.Small && n > 6 {
		n = 6
	}
	if o.MaxR > 0 && n > o.MaxR {
		n = o.MaxR
	}
	names := genNames(t, n, o.BNF)
	g := make(Gram, n)
	epsP := oneOf(t, 30, 60, 85)
	for i := range g {
		g[i].Head = Raw(names[i])
		later := n - 1 - i
		kind := weighted(t, 45, 40, 15)
		if i == 0 && pct(t, 50) {
			kind = 1
		}
		if later == 0 {
			kind = 0
		}
		switch kind {
		case 0: // alternatives with own first bytes
			eps := pct(t, epsP)
			na := oneOf(t, 1, 1, 2, 3)
			epsAt := uni(t, na+1)
			for j := 0; j < na; j++ {
				if eps && j == epsAt {
					g[i].Alts = append(g[i].Alts, []Sym{Eps})
				}
				alt := []Sym{T(fresh())}
				for k := oneOf(t, 0, 0, 1, 2, 3); k > 0; k-- {
					if pct(t, 70) {
						alt = append(alt, N(names[uni(t, n)]))
					} else {
						alt = append(alt, T(fresh()))
					}
				}
				g[i].Alts = append(g[i].Alts, alt)
			}
			if eps && epsAt == na {
				g[i].Alts = append(g[i].Alts, []Sym{Eps})
			}
		case 1: // a row of later rules
			alt := []Sym{}
			row := perm(t, later)
			for k := rng(t, 1, min(later, 5)+1); k > 0; k-- {
				if pct(t, 12) {
					alt = append(alt, T(fresh()))
				} else {
					// mostly distinct rules, so that optional ones do not compete
					if x := uni(t, later); len(row) > 0 && pct(t, 85) {
						alt = append(alt, N(names[i+1+row[0]]))
						row = row[1:]
					} else {
						alt = append(alt, N(names[i+1+x]))
					}
				}
			}
			g[i].Alts = [][]Sym{alt}
			if pct(t, 20) {
				g[i].Alts = append(g[i].Alts, []Sym{T(fresh()), N(names[uni(t, n)])})
			}
		case 2: // a list
			item := N(names[i+1+uni(t, later)])
			alt := []Sym{item, N(names[i])}
			if pct(t, 40) {
				alt = []Sym{T(fresh()), item, N(names[i])}
			}
			g[i].Alts = [][]Sym{alt, {Eps}}
			if pct(t, 50) {
				g[i].Alts[0], g[i].Alts[1] = g[i].Alts[1], g[i].Alts[0]
			}
		}
	}
	res, _, ok := repair(g, pool, o.BNF)
	if !ok {
		return simple.clone()
	}
	for k := oneOf(t, 0, 2, 6, 12); k > 0; k-- {
		bs := res.bytesOf()
		if len(bs) < 2 {
			break
		}
		x, y := bs[uni(t, len(bs))], bs[uni(t, len(bs))]
		if x == y || x == 0 || y == 0 {
			continue
		}
		h := res.clone()
		for i := range h {
			for _, alt := range h[i].Alts {
				for q := range alt {
					if alt[q].K == KTerm {
						alt[q].S = strings.ReplaceAll(alt[q].S, string([]byte{x}), string([]byte{y}))
					}
				}
			}
		}
		if a := analyze(h); a.ll1() && !a.dormant() {
			res = h
		}
	}
	return shuffleGram(t, res)
}

// genLL1 draws an LL(1) grammar.
func genLL1(t *rapid.T, o GOpt) Gram {
	g := genLL1Plain(t, o)
	if o.MaxR == 0 && pct(t, 12) {
		m := 9
		if o.Small {
			m = 5
		}
		if h := stretch(t, g, m); analyze(h).ll1() {
			return h
		}
	}
	if o.MaxR == 0 && pct(t, 10) {
		if h := pad(t, g); analyze(h).ll1() {
			return h
		}
	}
	return g
}

// pad puts rules that derive nothing but the empty string between the symbols
// of a grammar, and rows of rules with such neighbours in place of references,
// so that what follows a rule must be passed on many times, in any order.
func pad(t *rapid.T, g Gram) Gram {
	g = g.clone()
	names := map[string]bool{}
	for _, x := range g {
		names[string(x.Head)] = true
	}
	fresh := func(s string) string {
		n := s
		for k := 0; names[n]; k++ {
			n = fmt.Sprintf("%s%d", s, k)
		}
		names[n] = true
		return n
	}
	var nils []string
	var rules Gram
	for k := rng(t, 1, 4); k > 0; k-- {
		n := fresh("nil")
		alt := []Sym{Eps}
		if len(nils) > 0 && pct(t, 40) {
			alt = nil
			for i := oneOf(t, 1, 1, 2, 3); i > 0; i-- {
				alt = append(alt, N(nils[uni(t, len(nils))]))
			}
		}
		nils = append(nils, n)
		rules = append(rules, Rule{Raw(n), [][]Sym{alt}})
	}
	around := func(s ...Sym) []Sym {
		var alt []Sym
		for k := oneOf(t, 0, 0, 0, 1, 2); k > 0; k-- {
			alt = append(alt, N(nils[uni(t, len(nils))]))
		}
		alt = append(alt, s...)
		for k := oneOf(t, 0, 0, 1, 1, 2); k > 0; k-- {
			alt = append(alt, N(nils[uni(t, len(nils))]))
		}
		return alt
	}
	each := oneOf(t, 10, 30, 60)
	chains := oneOf(t, 0, 1, 2, 4)
	for i := range g {
		for j, alt := range g[i].Alts {
			var res []Sym
			for _, x := range alt {
				if x.K == KNon && chains > 0 && pct(t, each) {
					chains--
					for k := oneOf(t, 1, 2, 2, 3, 5); k > 0; k-- {
						n := fresh("link")
						alts := [][]Sym{around(x)}
						rules = append(rules, Rule{Raw(n), alts})
						x = N(n)
					}
				}
				if x.K != KNil && pct(t, each) {
					res = append(res, around(x)...)
				} else {
					res = append(res, x)
				}
			}
			g[i].Alts[j] = res
		}
	}
	switch uni(t, 4) {
	case 0:
		return append(g, rules...)
	case 1: // the first rule stays first
		return append(append(Gram{g[0]}, rules...), g[1:]...)
	case 2:
		for i, j := 0, len(rules)-1; i < j; i, j = i+1, j-1 {
			rules[i], rules[j] = rules[j], rules[i]
		}
		return append(append(Gram{g[0]}, rules...), g[1:]...)
	}
	g = append(g, rules...)
	p := perm(t, len(g)-1)
	h := Gram{g[0]}
	for _, i := range p {
		h = append(h, g[1+i])
	}
	return h
}

// stretch puts a row of optional rules, each with a byte of its own, somewhere
// into an alternative, so that what follows must be seen across all of them.
func stretch(t *rapid.T, g Gram, most int) Gram {
	g = g.clone()
	r := uni(t, len(g))
	if len(g[r].Alts) == 0 {
		return g
	}
	j := uni(t, len(g[r].Alts))
	alt := g[r].Alts[j]
	if alt[0].K == KNil {
		return g
	}
	used, names := Set{}, map[string]bool{}
	for _, b := range g.bytesOf() {
		used.add(int(b))
	}
	for _, x := range g {
		names[string(x.Head)] = true
	}
	pool := []byte("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&()*+,-./:;=?@[]^_{}~")
	var row []Sym
	var rules Gram
	at := uni(t, len(pool))
	for k := rng(t, 2, most); k > 0; k-- {
		i := 0
		for i < len(pool) && used.has(int(pool[(at+i)%len(pool)])) {
			i++
		}
		b := pool[(at+i)%len(pool)]
		used.add(int(b))
		n := fmt.Sprintf("o%d", len(rules))
		for names[n] {
			n += "x"
		}
		names[n] = true
		alts := [][]Sym{{T(string([]byte{b}))}, {Eps}}
		if len(rules) > 0 && pct(t, 25) {
			alts[0] = append(alts[0], N(string(rules[uni(t, len(rules))].Head))) // may make it conflict
		}
		if pct(t, 50) {
			alts[0], alts[1] = alts[1], alts[0]
		}
		rules = append(rules, Rule{Raw(n), alts})
		row = append(row, N(n))
	}
	if pct(t, 30) && len(rules) > 2 { // behind one name
		n := "orow"
		for names[n] {
			n += "x"
		}
		rules = append(rules, Rule{Raw(n), [][]Sym{row}})
		row = []Sym{N(n)}
	}
	k := uni(t, len(alt)+1)
	g[r].Alts[j] = append(alt[:k:k], append(row, alt[k:]...)...)
	if len(g[r].Alts[j]) > 0 && pct(t, 50) { // anywhere behind the first rule
		for _, x := range rules {
			p := 1 + uni(t, len(g))
			g = append(g[:p:p], append(Gram{x}, g[p:]...)...)
		}
		return g
	}
	return append(g, rules...)
}

func genLL1Plain(t *rapid.T, o GOpt) Gram {
	if pct(t, 45) {
		return genBuilt(t, o)
	}
	g := genGram(t, o)
	if pct(t, 70) {
		o.Prod = true
	}
	al := []byte("abc")
	if o.Prod {
		g = makeProductive(g, al)
	}
	res, _, ok := repair(g, al, o.BNF)
	if !ok {
		return simple.clone()
	}
	return res
}

// genConflict draws a grammar with few conflicts: the last one before repair
// finished, or an LL(1) grammar with a conflict planted.
func genConflict(t *rapid.T, o GOpt) Gram {
	g := genGram(t, o)
	way := weighted(t, 55, 30, 15)
	if way == 0 {
		_, last, ok := repair(g, []byte("abc"), o.BNF)
		if ok && last != nil {
			return shuffleGram(t, last)
		}
	}
	res, _, ok := repair(makeProductive(g, []byte("abc")), []byte("abc"), o.BNF)
	if !ok {
		res = simple.clone()
	}
	g = res
	if way == 2 {
		g = stretch(t, genLL1Plain(t, o), 9)
	}
	a := analyze(g)
	r := uni(t, len(g))
	insert := func(alt []Sym) {
		k := uni(t, len(g[r].Alts)+1)
		g[r].Alts = append(g[r].Alts[:k:k], append([][]Sym{alt}, g[r].Alts[k:]...)...)
	}
	switch uni(t, 5) {
	case 0: // same first byte
		fs := a.first[r].list()
		if len(fs) > 0 {
			insert([]Sym{T(string([]byte{byte(fs[uni(t, len(fs))])}) + oneOf(t, "", "z", "qq"))})
		}
	case 1: // an empty alternative
		insert([]Sym{Eps})
	case 2: // left recursion
		insert([]Sym{N(string(g[r].Head)), T(oneOf(t, "z", "a", "b"))})
	case 3: // an alternative through another rule
		insert([]Sym{N(string(g[uni(t, len(g))].Head))})
	case 4: // starts with something that can follow
		fs := a.follow[r].list()
		if len(fs) > 0 && fs[0] != End {
			insert([]Sym{T(string([]byte{byte(fs[uni(t, len(fs))])}))})
		} else {
			insert([]Sym{N(string(g[uni(t, len(g))].Head)), N(string(g[uni(t, len(g))].Head))})
		}
	}
	for i := range g {
		for j, alt := range g[i].Alts {
			for k, s := range alt {
				if s.K == KTerm && s.S[0] == 0 {
					g[i].Alts[j][k].S = "z"
				}
			}
		}
	}
	return g
}

// shuffleGram permutes alternatives and the rules after the first.
func shuffleGram(t *rapid.T, g Gram) Gram {
	g = g.clone()
	for i := range g {
		if pct(t, 50) {
			p := perm(t, len(g[i].Alts))
			n := make([][]Sym, len(p))
			for x, y := range p {
				n[y] = g[i].Alts[x]
			}
			g[i].Alts = n
		}
	}
	if len(g) > 2 && pct(t, 50) {
		p := perm(t, len(g)-1)
		h := make(Gram, len(g))
		h[0] = g[0]
		for i, x := range p {
			h[x+1] = g[i+1]
		}
		g = h
	}
	return g
}

// ---------------------------------------------------------------- sentences

// genSentence draws a sentence of the grammar (its start rule must be
// productive), aiming at about fuel expansions.
func genSentence(t *rapid.T, a *Analysis, fuel int) string {
	sb := strings.Builder{}
	var nt func(r, depth int)
	nt = func(r, depth int) {
		alts := a.alts[r]
		j := a.minAlt[r]
		if fuel > 0 && depth < 400 {
			fuel--
			var ok []int
			for i, alt := range alts {
				good := true
				for _, s := range alt {
					if s.nt >= 0 && !a.prod[s.nt] {
						good = false
					}
				}
				if good {
					ok = append(ok, i)
				}
			}
			j = ok[uni(t, len(ok))]
		}
		for _, s := range alts[j] {
			if sb.Len() > 4000 {
				fuel = 0
			}
			if s.nt >= 0 {
				nt(s.nt, depth+1)
			} else {
				sb.WriteString(s.text)
			}
		}
	}
	nt(0, 0)
	return sb.String()
}

// mutate applies one edit to an input.
func mutate(t *rapid.T, s string, bytes []byte) string {
	anyByte := func() byte {
		if len(bytes) > 0 && pct(t, 75) {
			return bytes[uni(t, len(bytes))]
		}
		return oneOf(t, byte('a'), 'b', 0, 255, '\n', '\r', ' ', 128, 1, '"', 'Z')
	}
	b := []byte(s)
	switch uni(t, 10) {
	case 9: // text mark at an end
		x := specials[uni(t, len(specials))]
		if pct(t, 50) {
			return x + s
		}
		return s + x
	case 0: // truncate
		if len(b) > 0 {
			b = b[:uni(t, len(b))]
		}
	case 1: // delete one
		if len(b) > 0 {
			i := uni(t, len(b))
			b = append(b[:i:i], b[i+1:]...)
		}
	case 2: // insert one
		i := uni(t, len(b)+1)
		b = append(b[:i:i], append([]byte{anyByte()}, b[i:]...)...)
	case 3: // replace one
		if len(b) > 0 {
			i := uni(t, len(b))
			if pct(t, 80) {
				b[i] = anyByte()
			} else { // one bit
				b[i] ^= 1 << uni(t, 8)
			}
		}
	case 4: // append
		b = append(b, anyByte())
	case 5: // append NUL and maybe more
		b = append(b, 0)
		if pct(t, 50) {
			b = append(b, anyByte())
		}
	case 6: // swap neighbours
		if len(b) > 1 {
			i := uni(t, len(b)-1)
			b[i], b[i+1] = b[i+1], b[i]
		}
	case 7: // repeat a piece
		if len(b) > 0 {
			i := uni(t, len(b))
			j := i + 1 + uni(t, min(len(b)-i, 8))
			if j > len(b) {
				j = len(b)
			}
			b = append(b[:j:j], append(append([]byte{}, b[i:j]...), b[j:]...)...)
		}
	case 8: // chop the front
		if len(b) > 0 {
			b = b[1+uni(t, min(len(b), 3))-1:]
			if len(b) > 0 {
				b = b[1:]
			}
		}
	}
	return string(b)
}

// genInput draws an input for a grammar: a sentence, a near miss, or noise.
func genInput(t *rapid.T, a *Analysis, bytes []byte) string {
	k := weighted(t, 45, 40, 12, 3)
	if !a.prod[0] && k < 2 {
		k = 2
	}
	switch k {
	case 0, 1:
		s := genSentence(t, a, oneOf(t, 2, 6, 12, 25, 40))
		if k == 1 {
			for n := rng(t, 1, 3); n > 0; n-- {
				s = mutate(t, s, bytes)
			}
		}
		return s
	case 2:
		n := uni(t, 8)
		b := make([]byte, n)
		for i := range b {
			if len(bytes) > 0 && pct(t, 90) {
				b[i] = bytes[uni(t, len(bytes))]
			} else {
				b[i] = byte(uni(t, 256))
			}
		}
		return string(b)
	}
	return ""
}

func genInputs(t *rapid.T, g Gram, a *Analysis, n int) []Raw {
	bs := g.bytesOf()
	r := make([]Raw, n)
	for i := range r {
		r[i] = Raw(genInput(t, a, bs))
	}
	return r
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
