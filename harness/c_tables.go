package main

// C01 C02 C03 C04 C05 C06: tables and the parsers they drive.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CaseG struct {
	G Gram `json:"g"`
}

type CaseGI struct {
	G    Gram    `json:"g"`
	In   []Raw   `json:"in"`
	Long []BigIn `json:"long,omitempty"` // long inputs, for LL(1) grammars
	Tail []Raw   `json:"tail,omitempty"` // short inputs that end in the same way
}

// genRare draws, once in a while, a very large grammar or long inputs.
func genRare(t *rapid.T, prod bool) (*CaseGI, bool) {
	switch uni(t, 300) {
	case 0:
		c := &CaseGI{G: genWide(t)}
		a := analyze(c.G)
		c.In = genInputs(t, c.G, a, 4)
		return c, true
	case 1:
		return genLong(t, prod), true
	case 2:
		return genFat(t), true
	}
	return nil, false
}

// genFat draws a grammar with very long alternatives and terminals and
// sentences of it, some with a byte changed.
func genFat(t *rapid.T) *CaseGI {
	const bytes = "xyz01abc"
	g := Gram{{"Fat", [][]Sym{}}, {"A", [][]Sym{{T("x")}, {T("y"), N("C")}}}, {"B", [][]Sym{{T("c"), N("A")}, {Eps}}}, {"C", [][]Sym{{T("z"), N("A")}, {Eps}}}}
	if pct(t, 70) {
		alt := []Sym{T("1")}
		for k := oneOf(t, 32, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300, 1000); k > 1; k-- {
			switch uni(t, 3) {
			case 0:
				alt = append(alt, N("A"))
			case 1:
				alt = append(alt, N("B"), T("0"))
			default:
				alt = append(alt, T(oneOf(t, "a", "ab", "b", "0", "cab")))
			}
		}
		g[0].Alts = append(g[0].Alts, alt)
	}
	if len(g[0].Alts) == 0 || pct(t, 40) {
		block := ""
		for k := rng(t, 1, 37); k > 0; k-- {
			block += bytes[uni(t, len(bytes)):][:1]
		}
		n := oneOf(t, 64, 255, 256, 257, 1000, 1024, 4095, 4096, 4097, 5000, 32768, 65535, 65536, 70000)
		term := []byte(strings.Repeat(block, n/len(block)+1)[:n])
		term[uni(t, n)] ^= 1
		term[0] = '0'
		g[0].Alts = append(g[0].Alts, []Sym{T(string(term)), N("B"), T("a")})
	}
	if pct(t, 50) {
		g[0].Alts = append(g[0].Alts, []Sym{T("a"), N("A"), T("0"), N("Fat")})
	}
	a := analyze(g)
	c := &CaseGI{G: g}
	for i := 0; i < 4; i++ {
		s := genSentence(t, a, oneOf(t, 3, 10, 30))
		if i == 1 || i == 2 {
			s = mutate(t, s, []byte(bytes))
		}
		if i == 3 && len(s) > 0 { // one byte near the end
			b := []byte(s)
			b[len(b)-1-uni(t, min(len(b), 12))] ^= oneOf(t, byte(1), 2, 3, 0x80)
			s = string(b)
		}
		if len(s) > 1500 {
			c.Long = append(c.Long, BigIn{Mid: Raw(s), N: 1})
		} else {
			c.In = append(c.In, Raw(s))
		}
	}
	return c
}

// genLong draws a grammar of lists or nestings of an LL(1) grammar's sentences
// and inputs of some ten thousand bytes for it.
func genLong(t *rapid.T, prod bool) *CaseGI {
	g := genLL1(t, GOpt{Small: true, Prod: prod})
	a := analyze(g)
	used := map[byte]bool{}
	for _, b := range g.bytesOf() {
		used[b] = true
	}
	var free []string
	for b := 255; b > 0 && len(free) < 2; b-- {
		if !used[byte(b)] {
			free = append(free, string([]byte{byte(b)}))
		}
	}
	if !a.prod[0] || len(free) < 2 {
		return &CaseGI{G: g}
	}
	x, y := free[0], free[1]
	top := Raw("Long")
	for a.has(top) {
		top += "-"
	}
	c := &CaseGI{}
	nest := pct(t, 30)
	if nest {
		c.G = append(Gram{{top, [][]Sym{{T(x), N(string(top)), T(y)}, {N(string(g[0].Head))}}}}, g...)
	} else {
		c.G = append(Gram{{top, [][]Sym{{N(string(g[0].Head)), T(x), N(string(top))}, {T(y)}}}}, g...)
	}
	total := oneOf(t, 300, 5000, 33000, 66000, 70000)
	for i := 0; i < 2; i++ {
		var in BigIn
		if nest {
			// opened too often, too rarely, or as often as closed
			n := total / 2
			s := genSentence(t, a, 10)
			d := oneOf(t, 0, 0, 0, 1, -1)
			in = BigIn{Pre: Raw(strings.Repeat(x, n) + s), Mid: Raw(y), N: n + d}
			c.Tail = append(c.Tail, Raw(x+x+s+strings.Repeat(y, 2+d)))
		} else {
			var mid string
			for len(mid) < oneOf(t, 1, 40, 200) {
				mid += genSentence(t, a, 10) + x
			}
			s := mid + y
			if i == 1 {
				s = mutate(t, s, c.G.bytesOf())
			}
			in = BigIn{Mid: Raw(mid), N: total/len(mid) + 1, Post: Raw(s)}
			c.Tail = append(c.Tail, Raw(s))
		}
		c.Long = append(c.Long, in)
	}
	return c
}

// checkLong compares the parses of long inputs with the reference.
func checkLong(c *CaseGI, a *Analysis, p parser.LL1Parser, o *Obs, blamed bool) error {
	if !a.ll1() {
		return nil
	}
	for i, l := range c.Long {
		in := l.text()
		ctx := func(f string, x ...any) error {
			return fmt.Errorf("%s\ngrammar %v\ninput of %d bytes: %q, %d times %q, %q", fmt.Sprintf(f, x...), c.G, len(in), clip(string(l.Pre), 100), l.N, clip(string(l.Mid), 100), clip(string(l.Post), 100))
		}
		n, _, perr, err := parse(p, in)
		if err != nil {
			return ctx("%v", err)
		}
		want, rerr := refParse(a, in)
		if (perr == nil) != (rerr == nil) {
			return ctx("parsing gives error %v, expected %v", perr, rerr)
		}
		o.NonTrivial()
		if perr != nil {
			o.Label("long input refused")
			if blamed && i < len(c.Tail) {
				r := newEarley(a).run(string(c.Tail[i]))
				if r.accepted {
					return &harnessError{ctx("tail %q accepted", c.Tail[i]).Error()}
				}
				r.viable += len(in) - len(c.Tail[i])
				if r.viable != rerr.pos {
					return &harnessError{ctx("tail %q stops at %d, the reference at %d", c.Tail[i], r.viable, rerr.pos).Error()}
				}
				if _, err := blame(a, r, in, perr); err != nil {
					return ctx("error %q %v", perr, err)
				}
			}
			continue
		}
		o.Label("long input accepted")
		if err := sameTree(n, want); err != nil {
			return ctx("%v", err)
		}
		if err := checkTree(a, n, in); err != nil {
			return ctx("%v", err)
		}
	}
	return nil
}

// shape labels a grammar.
func shape(a *Analysis, o *Obs) {
	if a.g.equal(simple) {
		o.Label("grammar: generator fallback")
	}
	nl := 0
	for i := range a.g {
		if a.nullable[i] {
			nl++
		}
	}
	if nl > 0 {
		o.Label("grammar: has nullable rules")
	}
	run := 0
	viaRule := false
	for i := range a.g {
		for j, alt := range a.alts[i] {
			k := 0
			for x, s := range alt {
				if s.nt >= 0 && a.nullable[s.nt] {
					k++
					if k >= 2 && x+1 < len(alt) {
						run = 2
					}
				} else {
					k = 0
				}
			}
			if a.altNull[i][j] && len(alt) > 0 {
				viaRule = true
			}
		}
	}
	if run >= 2 {
		o.Label("grammar: adjacent nullable rules")
	}
	if viaRule {
		o.Label("grammar: nullable through other rules")
	}
	if len(a.g) > 14 {
		o.Label("grammar: >14 rules")
	}
	if !a.allProductive() {
		o.Label("grammar: unproductive rule")
	}
	for i := range a.reach {
		if !a.reach[i] {
			o.Label("grammar: unreachable rule")
			break
		}
	}
}

// unsafeTable checks a table of a grammar that is not LL(1): it must still have
// an entry for every byte that can begin an alternative, with that alternative,
// and empty ones for those that can only follow.
func unsafeTable(a *Analysis, table Table) error {
	for r := range a.g {
		row := table[r]
		for b := 0; b < 256; b++ {
			col := b
			if b == 0 {
				col = End
			}
			got, has := row[byte(b)]
			first, follow := false, false
			for j := range a.alts[r] {
				if a.altFirst[r][j].has(col) {
					first = true
					if !has || !sameOps(got, opsOf(a.alts[r][j])) {
						return fmt.Errorf("row %d byte %d can begin alternative %d, entry present=%v %v\ngrammar %v", r, b, j, has, got, a.g)
					}
				}
				follow = follow || a.altNull[r][j] && a.follow[r].has(col)
			}
			if has != (first || follow) || has && !first && len(got) > 0 {
				return fmt.Errorf("row %d byte %d: entry present=%v %v\ngrammar %v", r, b, has, got, a.g)
			}
		}
	}
	return nil
}

func genGI(t *rapid.T, arbPct, nIn int) *CaseGI {
	var g Gram
	if pct(t, arbPct) {
		if pct(t, 50) {
			g = genConflict(t, GOpt{Small: true})
		} else {
			g = genGram(t, GOpt{Small: true})
		}
	} else {
		g = genLL1(t, GOpt{})
	}
	a := analyze(g)
	return &CaseGI{G: g, In: genInputs(t, g, a, nIn)}
}

// ---- small-scope enumeration: two rules, two alternatives, two symbols

var enumSyms = []Sym{T("a"), T("b"), N("A"), N("B")}

func enumAlts() [][]Sym {
	r := [][]Sym{{Eps}}
	for _, x := range enumSyms {
		r = append(r, []Sym{x})
	}
	for _, x := range enumSyms {
		for _, y := range enumSyms {
			r = append(r, []Sym{x, y})
		}
	}
	return r
}

// enumTails are all rule bodies of one or two alternatives, in order.
func enumTails() [][][]Sym {
	al := enumAlts()
	var r [][][]Sym
	for _, x := range al {
		r = append(r, [][]Sym{x})
	}
	for _, x := range al {
		for _, y := range al {
			r = append(r, [][]Sym{x, y})
		}
	}
	return r
}

const enumDesc = "every grammar of two rules A, B with one or two alternatives each, each alternative empty or one or two symbols over {a, b, A, B} (462*462 grammars)"

// enumGrams yields shard k's part; step>1 takes every step-th grammar.
func enumGrams(k, n, step int, yield func(g Gram) bool) {
	ts := enumTails()
	i := 0
	for _, x := range ts {
		for _, y := range ts {
			i++
			if i%n != k || (i/n)%step != 0 {
				continue
			}
			if !yield(Gram{{"A", x}, {"B", y}}) {
				return
			}
		}
	}
}

func stringsOver(al string, maxLen int) []Raw {
	r := []Raw{""}
	prev := []string{""}
	for l := 1; l <= maxLen; l++ {
		var next []string
		for _, p := range prev {
			for i := 0; i < len(al); i++ {
				next = append(next, p+al[i:i+1])
			}
		}
		for _, s := range next {
			r = append(r, Raw(s))
		}
		prev = next
	}
	return r
}

func enumGI(tier string, k, n int, yield func(c any) bool) {
	step, maxLen := 1, 4
	if tier == "thorough" {
		step, maxLen = 1, 7
	}
	ins := stringsOver("ab", maxLen)
	enumGrams(k, n, step, func(g Gram) bool {
		a := analyze(g)
		if !a.ll1() {
			// a refused grammar has no parser to test; keep a sample so that
			// wrongly accepted ones are tested too
			if len(g[0].Alts)+len(g[1].Alts) > 3 && (len(g[0].Alts[0])+2*len(g[1].Alts[0]))%3 != 0 {
				return true
			}
		}
		return yield(&CaseGI{G: g, In: ins})
	})
}

// ---- three rules, random small-scope sampling

func genTiny(t *rapid.T) Gram {
	n := rng(t, 2, 4)
	names := []string{"A", "B", "C", "D"}[:n]
	g := make(Gram, n)
	for i := range g {
		g[i].Head = Raw(names[i])
		for j := rng(t, 1, 3); j > 0; j-- {
			alt := []Sym{}
			for k := oneOf(t, 0, 1, 2, 2, 3); k > 0; k-- {
				if pct(t, 65) {
					alt = append(alt, N(names[uni(t, n)]))
				} else {
					alt = append(alt, T(oneOf(t, "a", "b", "c", "d")))
				}
			}
			if len(alt) == 0 {
				alt = []Sym{Eps}
			}
			g[i].Alts = append(g[i].Alts, alt)
		}
	}
	return g
}

func init() {
	// C01 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C01",
		Rule:     "a case is a grammar (mostly LL(1) by construction: random grammar with conflicts removed one at a time; sizes 1-40 rules, now and then 300; byte alphabets from {a,b} to all 255) with inputs (derived sentences, 1-3 byte edits of them, noise; now and then lists or nestings of 66000 bytes); non-trivial: the library generated a parser, and among the inputs there is a sentence and a non-sentence",
		Quick:    14000,
		Thorough: 60000,
		Enum:     enumGI, EnumDesc: enumDesc + ", each with all strings over {a,b} up to length 4 (7 in thorough)",
		New: func() any { return &CaseGI{} },
		Gen: func(t *rapid.T) any {
			if c, ok := genRare(t, false); ok {
				return c
			}
			return genGI(t, 15, 6)
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseGI)
			a := analyze(c.G)
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			if err := checkLong(c, a, p, o, false); err != nil {
				return err
			}
			shape(a, o)
			e := newEarley(a)
			yes, no := false, false
			for _, in := range c.In {
				_, _, perr, err := parse(p, string(in))
				if err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, string(in))
				}
				want := e.run(string(in)).accepted
				if want {
					yes = true
					o.Label("input: sentence")
				} else {
					no = true
					o.Label("input: not a sentence")
				}
				if want && perr != nil {
					return fmt.Errorf("sentence refused: %v\ngrammar %v\ninput %q", perr, c.G, string(in))
				}
				if !want && perr == nil {
					return fmt.Errorf("non-sentence accepted\ngrammar %v\ninput %q", c.G, string(in))
				}
			}
			if yes && no {
				o.NonTrivial()
			}
			return nil
		},
	})

	// C02 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C02",
		Rule:     "as C01 (grammar with inputs), keeping mostly derived sentences; non-trivial: a sentence was accepted whose tree has at least 4 nodes, compared node by node with the structural predicate and, for LL(1) grammars, with the expected tree",
		Quick:    16000,
		Thorough: 80000,
		Enum:     enumGI, EnumDesc: enumDesc + ", each with all strings over {a,b} up to length 4 (7 in thorough)",
		New: func() any { return &CaseGI{} },
		Gen: func(t *rapid.T) any {
			if c, ok := genRare(t, false); ok {
				return c
			}
			if pct(t, 10) {
				return genGI(t, 50, 5)
			}
			g := genLL1(t, GOpt{})
			a := analyze(g)
			c := &CaseGI{G: g}
			if a.prod[0] {
				for i := 0; i < 4; i++ {
					c.In = append(c.In, Raw(genSentence(t, a, oneOf(t, 3, 8, 20, 60))))
				}
			}
			c.In = append(c.In, genInputs(t, g, a, 1)...)
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseGI)
			a := analyze(c.G)
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			if err := checkLong(c, a, p, o, false); err != nil {
				return err
			}
			shape(a, o)
			for _, in := range c.In {
				n, _, perr, err := parse(p, string(in))
				if err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, string(in))
				}
				if perr != nil {
					o.Label("input refused")
					continue
				}
				if err := checkTree(a, n, string(in)); err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, string(in))
				}
				sz := snap(n).size()
				if a.ll1() {
					want, rerr := refParse(a, string(in))
					if rerr == nil {
						if err := sameTree(n, want); err != nil {
							return fmt.Errorf("%v\ngrammar %v\ninput %q\nwant %v\ngot %v", err, c.G, string(in), want, snap(n))
						}
					}
				}
				switch {
				case sz < 4:
					o.Label("tree: <4 nodes")
				case sz < 30:
					o.Label("tree: 4-29 nodes")
					o.NonTrivial()
				default:
					o.Label("tree: >=30 nodes")
					o.NonTrivial()
				}
			}
			return nil
		},
	})

	// C03 ------------------------------------------------------------------
	enumAll := func(tier string, k, n int, yield func(c any) bool) {
		enumGrams(k, n, 1, func(g Gram) bool { return yield(&CaseG{g}) })
	}
	register(&Prop{
		ID:       "C03",
		Rule:     "a case is a grammar: the last conflicting grammar before a random one became LL(1), an LL(1) grammar with one planted conflict (some across long rows of optional rules, some in grammars of up to 300 rules), a random one, or a random 2-4 rule one; non-trivial: the textbook analysis finds a conflict, so the library must refuse",
		Quick:    20000,
		Thorough: 400000,
		Enum:     enumAll, EnumDesc: enumDesc,
		New: func() any { return &CaseG{} },
		Gen: func(t *rapid.T) any {
			if uni(t, 400) == 0 { // a conflict in a large grammar
				g := genWide(t).clone()
				a := analyze(g)
				r := uni(t, len(g))
				if fs := a.follow[r].list(); len(fs) > 0 && fs[0] != End {
					g[r].Alts = append(g[r].Alts, []Sym{T(string([]byte{byte(fs[uni(t, len(fs))])}))})
				} else if fs := a.first[r].list(); len(fs) > 0 {
					g[r].Alts = append(g[r].Alts, []Sym{T(string([]byte{byte(fs[uni(t, len(fs))])}))})
				}
				return &CaseG{g}
			}
			if pct(t, 4) {
				return &CaseG{genFarConflict(t)}
			}
			switch weighted(t, 50, 15, 35) {
			case 0:
				return &CaseG{genConflict(t, GOpt{})}
			case 1:
				return &CaseG{genGram(t, GOpt{})}
			}
			return &CaseG{genTiny(t)}
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseG)
			a := analyze(c.G)
			if a.dormant() {
				o.Label("unspecified: ambiguity nothing can reach")
				return nil
			}
			tp, np, err := tablegen.FromGrammar(c.G.ToBNF())
			if err == nil && (tp == nil || np == nil) || err != nil && (tp != nil || np != nil) {
				return fmt.Errorf("table %v, names %v, error %v\ngrammar %v", tp != nil, np != nil, err, c.G)
			}
			if a.ll1() {
				o.Label("LL(1) grammar")
				return nil
			}
			o.NonTrivial()
			if len(a.conf) == 1 {
				o.Label("exactly one conflicting pair")
			}
			for _, cf := range a.conf[:1] {
				switch {
				case a.altNull[cf.rule][cf.i] && a.altNull[cf.rule][cf.j]:
					o.Label("conflict: both can be empty")
				case a.altFirst[cf.rule][cf.i].has(cf.b) && a.altFirst[cf.rule][cf.j].has(cf.b):
					o.Label("conflict: FIRST/FIRST")
				case a.altNull[cf.rule][cf.i]:
					o.Label("conflict: FIRST/FOLLOW, empty alternative first")
				default:
					o.Label("conflict: FIRST/FOLLOW, empty alternative last")
				}
			}
			if a.leftRecursive() {
				o.Label("left recursive")
			}
			if err == nil {
				cf := a.conf[0]
				return fmt.Errorf("accepted although alternatives %d and %d of <%s> compete for byte %d\ngrammar %v",
					cf.i, cf.j, string(c.G[cf.rule].Head), cf.b, c.G)
			}
			return nil
		},
	})

	// C04 ------------------------------------------------------------------
	genG := func(t *rapid.T) any {
		switch weighted(t, 77, 22, 1) {
		case 0:
			return &CaseG{shuffleGram(t, genLL1(t, GOpt{}))}
		case 1:
			g, _, ok := repair(genTiny(t), []byte("abcd"), false)
			if ok {
				return &CaseG{g}
			}
			return &CaseG{simple.clone()}
		}
		return &CaseG{genWide(t)}
	}
	register(&Prop{
		ID:       "C04",
		Rule:     "a case is a grammar that is LL(1) by the textbook analysis (random ones with conflicts removed, 1-40 rules; chains, lists and byte-wide alternatives of up to 300 rules); non-trivial: it has a rule that can be empty and at least two rules",
		Quick:    16000,
		Thorough: 300000,
		Enum:     enumAll, EnumDesc: enumDesc,
		New: func() any { return &CaseG{} },
		Gen: genG,
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseG)
			a := analyze(c.G)
			if !a.ll1() {
				o.Label("not LL(1)")
				return nil
			}
			if a.dormant() {
				return nil
			}
			shape(a, o)
			for i := range a.nullable {
				if a.nullable[i] && len(a.g) > 1 {
					o.NonTrivial()
					break
				}
			}
			tp, np, err := tablegen.FromGrammar(c.G.ToBNF())
			if err != nil {
				return fmt.Errorf("LL(1) grammar refused: %v\ngrammar %v", err, c.G)
			}
			if tp == nil || np == nil {
				return fmt.Errorf("nil table or names without error\ngrammar %v", c.G)
			}
			return nil
		},
	})

	// C05 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C05",
		Rule:     "as C04; the whole generated table is compared with the textbook table, all 256 columns of every row; non-trivial: the expected table has an entry that exists only because a byte can follow a rule that may be empty",
		Quick:    14000,
		Thorough: 250000,
		Enum:     enumAll, EnumDesc: enumDesc,
		New: func() any { return &CaseG{} },
		Gen: genG,
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseG)
			a := analyze(c.G)
			if a.dormant() {
				o.Label("not LL(1)")
				return nil
			}
			_, table, _, err := build(c.G)
			if !a.ll1() {
				o.Label("not LL(1)")
				if err == nil { // it should have been refused: C03
					return unsafeTable(a, table)
				}
				return nil
			}
			shape(a, o)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			if len(table) != len(c.G) {
				return fmt.Errorf("table has %d rows for %d rules\ngrammar %v", len(table), len(c.G), c.G)
			}
			for r := range c.G {
				row, ok := table[r]
				if !ok {
					return fmt.Errorf("no row %d\ngrammar %v", r, c.G)
				}
				for b := 0; b < 256; b++ {
					col := b
					if b == 0 {
						col = End
					}
					want := a.cell(r, col)
					got, has := row[byte(b)]
					if has != (want.alt >= 0) {
						return fmt.Errorf("row %d byte %d: entry present=%v, want %v\ngrammar %v", r, b, has, want.alt >= 0, c.G)
					}
					if !has {
						continue
					}
					var ops = opsOf(nil)
					if !want.empty {
						ops = opsOf(a.alts[r][want.alt])
					} else {
						o.NonTrivial()
					}
					if !sameOps(got, ops) {
						return fmt.Errorf("row %d byte %d: entry %v, want %v\ngrammar %v", r, b, got, ops, c.G)
					}
				}
			}
			return nil
		},
	})

	// C06 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C06",
		Rule:     "a case is a grammar with one planted flaw (or several) of the listed kinds at a random rule, alternative and position, in an otherwise random or LL(1) grammar, with unreachable and unproductive surroundings; non-trivial: the reference finds the flaw",
		Quick:    20000,
		Thorough: 400000,
		New:      func() any { return &CaseG{} },
		Gen: func(t *rapid.T) any {
			var g Gram
			switch weighted(t, 45, 30, 25) {
			case 0:
				switch {
				case uni(t, 70) == 0:
					g = genWide(t)
				case pct(t, 8):
					g = genBroad(t)
				default:
					g = genLL1(t, GOpt{Small: pct(t, 70)})
				}
			case 1:
				g = genGram(t, GOpt{Small: true})
			case 2:
				g = genTiny(t)
			}
			for n := oneOf(t, 1, 1, 1, 2); n > 0; n-- {
				g = plantFlaw(t, g, true)
			}
			return &CaseG{g}
		},
		Enum: func(tier string, k, n int, yield func(c any) bool) {
			enumMalformed(k, n, func(g Gram) bool { return yield(&CaseG{g}) })
		},
		EnumDesc: "the empty grammar, and every grammar of two rules A, B where A has one or two alternatives of one to three symbols and B one of up to two, over {\"a\", A, B, undefined rule, \"\", empty terminal, NUL terminal}, that has a flaw",
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseG)
			flaw := wellFormed(c.G)
			if flaw == "" {
				o.Label("well-formed after all")
				return nil
			}
			o.NonTrivial()
			o.Label("flaw: %s", flaw)
			for _, b := range []bnf.Grammar{c.G.ToBNF(), slackBNF(c.G)} {
				tp, np, err := tablegen.FromGrammar(b)
				if err == nil {
					return fmt.Errorf("accepted although malformed (%s)\ngrammar %v", flaw, c.G)
				}
				if tp != nil || np != nil {
					return fmt.Errorf("error together with a table or names\ngrammar %v", c.G)
				}
			}
			return nil
		},
	})
}

// genBroad draws a well-formed grammar, seldom LL(1), with many rules, many
// alternatives or long ones.
func genBroad(t *rapid.T) Gram {
	n, m, l := 1, 1, 1
	switch uni(t, 4) {
	case 0:
		n = oneOf(t, 10, 40, 70, 140, 300)
	case 1:
		m = oneOf(t, 10, 40, 70, 140, 300)
	case 2:
		l = oneOf(t, 10, 40, 70, 140, 300)
	default:
		n, m, l = rng(t, 2, 12), rng(t, 2, 12), rng(t, 2, 12)
	}
	sym := func() Sym {
		if n > 1 && pct(t, 30) {
			return N(fmt.Sprintf("R%d", uni(t, n)))
		}
		return T(string([]byte{byte('a' + uni(t, 26))}))
	}
	g := make(Gram, n)
	for i := range g {
		g[i].Head = Raw(fmt.Sprintf("R%d", i))
		for j := 0; j < m; j++ {
			alt := []Sym{}
			for k := 0; k < l; k++ {
				alt = append(alt, sym())
			}
			g[i].Alts = append(g[i].Alts, alt)
		}
	}
	return g
}

// genFarConflict draws a grammar with one rule of many alternatives, two of
// which, at a drawn distance, compete.
func genFarConflict(t *rapid.T) Gram {
	al := alphabet(t, alphaAll)[1:] // 255 bytes
	d := oneOf(t, 1, 8, 16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 200)
	i := uni(t, oneOf(t, 1, 4, 30))
	m := i + d + 1
	if m > 240 {
		i, m = 0, d+1
	}
	m += uni(t, 240-m+1) / oneOf(t, 1, 4, 20)
	big := Rule{Head: "B"}
	for j := 0; j < m; j++ {
		alt := []Sym{T(string(al[j : j+1]))}
		if pct(t, 20) {
			alt = append(alt, N("S"), T(string(al[249:250])))
		}
		big.Alts = append(big.Alts, alt)
	}
	x, y := i, i+d
	if pct(t, 50) {
		x, y = y, x
	}
	g := Gram{{"S", [][]Sym{{T(string(al[250:251])), N("B"), N("S")}, {Eps}}}, big}
	b := Sym(T(string(al[x : x+1])))
	switch uni(t, 5) {
	case 0: // the same first byte
		g[1].Alts[y] = []Sym{b, T("k")}
	case 1: // one of them through a rule
		g[1].Alts[y] = []Sym{N("C"), T("k")}
		g = append(g, Rule{"C", [][]Sym{{b}, {T(string(al[251:252]))}}})
	case 2: // behind an optional rule
		g[1].Alts[y] = []Sym{N("C"), b}
		g = append(g, Rule{"C", [][]Sym{{T(string(al[251:252]))}, {Eps}}})
	case 3: // can be empty, and the byte may follow
		g[1].Alts[y] = []Sym{Eps}
		g[0].Alts[0] = append(g[0].Alts[0][:2:2], b)
	default: // both can be empty
		g[1].Alts[x], g[1].Alts[y] = []Sym{N("C")}, []Sym{N("C")}
		if pct(t, 50) {
			g[1].Alts[x] = []Sym{Eps}
		}
		g = append(g, Rule{"C", [][]Sym{{Eps}}})
	}
	return g
}

// genWide draws large LL(1) grammars: chains that propagate emptiness and
// lookahead over many rules in either order, wide alternatives, many rules,
// optional rules used in one of many alternatives.
func genWide(t *rapid.T) Gram {
	n := oneOf(t, 20, 60, 65, 130, 260, 300)
	name := func(i int) string { return fmt.Sprintf("N%d", i) }
	var g Gram
	switch uni(t, 5) {
	case 0: // S ::= N1 N2 ... ; each optional, distinct bytes
		m := min(n, 250)
		al := alphabet(t, alphaAll)[1:]
		seq := []Sym{}
		for i := 0; i < m; i++ {
			seq = append(seq, N(name(i)))
		}
		if pct(t, 50) {
			seq = append(seq, T(string([]byte{al[254]})))
		}
		g = append(g, Rule{"S", [][]Sym{seq}})
		for i := 0; i < m; i++ {
			alts := [][]Sym{{T(string(al[i : i+1]))}, {Eps}}
			if pct(t, 30) {
				alts[0], alts[1] = alts[1], alts[0]
			}
			g = append(g, Rule{Raw(name(i)), alts})
		}
	case 1: // chain: N0 -> N1 -> ... -> Nk -> "x" N0 | ""
		for i := 0; i < n; i++ {
			g = append(g, Rule{Raw(name(i)), [][]Sym{{N(name((i + 1) % n))}}})
		}
		g[n-1].Alts = [][]Sym{{T("x"), N(name(0))}, {Eps}}
		if pct(t, 50) { // reverse the order of the inner rules
			for i, j := 1, n-1; i < j; i, j = i+1, j-1 {
				g[i], g[j] = g[j], g[i]
			}
		}
	case 2: // one rule with up to 255 alternatives
		al := alphabet(t, alphaAll)[1:]
		m := min(n, 255)
		r := Rule{Head: "B"}
		for i := 0; i < m; i++ {
			r.Alts = append(r.Alts, []Sym{T(string(al[i : i+1]))})
		}
		g = Gram{{"S", [][]Sym{{N("B"), N("S")}, {Eps}}}, r}
	case 4: // one rule with many alternatives, some with optional rules used only there
		al := alphabet(t, alphaAll)[1:]
		m := min(n, 235)
		k := rng(t, 1, 4)
		r := Rule{Head: "B"}
		for i := 0; i < m; i++ {
			r.Alts = append(r.Alts, []Sym{T(string(al[i : i+1]))})
		}
		for i := 0; i < k; i++ {
			// most often late, and in one alternative only
			for u := oneOf(t, 1, 1, 2, 5); u > 0; u-- {
				j := m - 1 - uni(t, m)/oneOf(t, 1, 4, 20)
				alt := append(r.Alts[j], N(name(i)))
				switch uni(t, 4) {
				case 0:
				case 1:
					if k > 1 {
						alt = append(alt, N(name((i+1)%k)))
					}
					alt = append(alt, T(string(al[236:237])))
				default:
					alt = append(alt, T(string(al[237+uni(t, 3):][:1])))
				}
				r.Alts[j] = alt
			}
		}
		g = Gram{{"S", [][]Sym{{N("B"), N("S")}, {Eps}}}, r}
		if pct(t, 50) {
			g[0].Alts[0] = []Sym{N("B"), T(string(al[235:236])), N("S")}
		}
		for i := 0; i < k; i++ {
			alts := [][]Sym{{T(string(al[245+i : 246+i]))}, {Eps}}
			if pct(t, 30) {
				alts[0], alts[1] = alts[1], alts[0]
			}
			g = append(g, Rule{Raw(name(i)), alts})
		}
		if pct(t, 30) { // the optional rules first
			g = append(g[:1:1], append(g[2:], r)...)
		}
	case 3: // follow chain: each rule ends in the next, only the first has a successor
		for i := 0; i < n; i++ {
			g = append(g, Rule{Raw(name(i)), [][]Sym{{T(string(rune('a' + i%26))), N(name(min(i+1, n-1)))}, {Eps}}})
		}
		g[n-1].Alts = [][]Sym{{T("z"), T("z")}, {Eps}}
		g = append(Gram{{"S", [][]Sym{{N(name(0)), T("!")}}}}, g...)
		if pct(t, 50) {
			for i, j := 1, n-1; i < j; i, j = i+1, j-1 {
				g[i], g[j] = g[j], g[i]
			}
		}
	}
	return g
}

func plantFlaw(t *rapid.T, g Gram, miss bool) Gram {
	g = g.clone()
	if len(g) == 0 {
		return g
	}
	// sometimes plant it in an extra, unreachable rule, or behind an
	// unproductive prefix
	r := uni(t, len(g))
	if pct(t, 15) {
		g = append(g, Rule{"Unreached", [][]Sym{{T("u")}}})
		r = len(g) - 1
	}
	j := uni(t, len(g[r].Alts))
	put := func(s Sym) {
		a := g[r].Alts[j]
		if len(a) == 1 && a[0].K == KNil {
			if pct(t, 50) && s.K != KNil {
				g[r].Alts[j] = []Sym{s}
				return
			}
			a = []Sym{T("p")}
		}
		if pct(t, 10) {
			a = append([]Sym{N(string(g[r].Head))}, a...)
		}
		k := uni(t, len(a)+1)
		g[r].Alts[j] = append(a[:k:k], append([]Sym{s}, a[k:]...)...)
	}
	switch uni(t, 8) {
	case 7:
		if !miss || pct(t, 60) {
			put(Eps)
		} else {
			put(Sym{K: KMiss})
		}
	case 0:
		n := oneOf(t, "undefined", "", "a", "S", "A ", "\n", "\x00", "_literal", "_nothing", "-1", "-2", "0")
		if pct(t, 50) {
			n = wellKnown[uni(t, len(wellKnown))]
		}
		put(N(n))
	case 1:
		put(T(""))
	case 2:
		put(T("\x00" + oneOf(t, "", "a", "\x00", "abc")))
	case 3:
		put(Eps)
	case 4:
		g[r].Alts[j] = []Sym{}
	case 5:
		d := Rule{Head: g[r].Head, Alts: [][]Sym{{T(oneOf(t, "d", "a", "zz"))}}}
		if pct(t, 30) {
			d.Alts = g.clone()[r].Alts
		}
		k := uni(t, len(g)+1)
		g = append(g[:k:k], append(Gram{d}, g[k:]...)...)
	case 6:
		if pct(t, 20) {
			return Gram{}
		}
		// rename a head away from its references
		g[r].Head += "'"
	}
	return g
}

func enumMalformed(k, n int, yield func(g Gram) bool) {
	syms := []Sym{T("a"), N("A"), N("B"), N("?"), Eps, T(""), T("\x00")}
	var alts [][]Sym
	for _, x := range syms {
		alts = append(alts, []Sym{x})
		for _, y := range syms {
			alts = append(alts, []Sym{x, y})
			for _, z := range syms {
				alts = append(alts, []Sym{x, y, z})
			}
		}
	}
	alts = append(alts, []Sym{})
	short := [][]Sym{}
	for _, a := range alts {
		if len(a) <= 2 {
			short = append(short, a)
		}
	}
	i := 0
	em := func(g Gram) bool {
		i++
		if i%n != k || wellFormed(g) == "" {
			return true
		}
		return yield(g)
	}
	if !em(Gram{}) {
		return
	}
	for _, x := range alts {
		for _, y := range short {
			if !em(Gram{{"A", [][]Sym{x}}, {"B", [][]Sym{y}}}) {
				return
			}
		}
		for _, z := range [][]Sym{{T("b")}, {N("A")}, {Eps}, {N("?")}} {
			if !em(Gram{{"A", [][]Sym{x, z}}, {"B", [][]Sym{{T("c")}}}}) || !em(Gram{{"A", [][]Sym{z, x}}, {"B", [][]Sym{{T("c")}}}}) {
				return
			}
		}
	}
}
