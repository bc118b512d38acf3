package main

// C10 C14 C17 C18: parsing any bytes, blame, names, metamorphic relations.

import (
	"errors"
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

// checkSpans: every span lies inside the input and is not reversed.
func checkSpans(n cst.Node, size int) error {
	if n == nil {
		return fmt.Errorf("nil node in the tree")
	}
	if n.Pos() < 0 || n.Pos() > n.End() || n.End() > size {
		return fmt.Errorf("node type %d has span [%d,%d) in an input of %d bytes", n.Type(), n.Pos(), n.End(), size)
	}
	for _, k := range n.Childs() {
		if err := checkSpans(k, size); err != nil {
			return err
		}
	}
	return nil
}

// genAnyInput draws inputs of all sorts for C10.
func genAnyInput(t *rapid.T, g Gram, a *Analysis) string {
	bs := g.bytesOf()
	switch weighted(t, 45, 20, 15, 10, 10) {
	case 0:
		return genInput(t, a, bs)
	case 1: // any bytes
		b := make([]byte, oneOf(t, 0, 1, 2, 5, 17))
		for i := range b {
			b[i] = byte(uni(t, 256))
		}
		return string(b)
	case 2: // long repetition of a piece
		s := genInput(t, a, bs)
		if s == "" {
			s = string(boundaryBytes[uni(t, len(boundaryBytes))])
		}
		return strings.Repeat(s, min(oneOf(t, 2, 3, 50, 400), 1+8000/len(s)))
	case 3: // a terminal's text, cut
		var ts []string
		for _, r := range g {
			for _, alt := range r.Alts {
				for _, s := range alt {
					if s.K == KTerm {
						ts = append(ts, s.S)
					}
				}
			}
		}
		if len(ts) == 0 {
			return "a"
		}
		s := ""
		for n := rng(t, 1, 4); n > 0; n-- {
			s += ts[uni(t, len(ts))]
		}
		return s[:uni(t, len(s)+1)]
	}
	// NULs around a sentence
	s := ""
	if a.prod[0] {
		s = genSentence(t, a, 10)
	}
	i := uni(t, len(s)+1)
	return oneOf(t, "", "\x00") + s[:i] + "\x00" + oneOf(t, "", "\x00", "a") + s[i:]
}

var (
	reRule = regexp.MustCompile(`(?s)no rules for '.*' \((\d+)\) and non terminal op <(.*)>$`)
	reChar = regexp.MustCompile(`(?s)expected char '.*' \((\d+)\), got '.*' \((\d+)\)$`)
	reNum  = regexp.MustCompile(`0x[0-9A-Fa-f]+|\d+`)
	reEnd  = regexp.MustCompile(`(?s)expected end of input got '.*' \((\d+)\)$`)
)

// blame checks an error text against what the recogniser says.
func blame(a *Analysis, r ERes, in string, perr error) (kind string, err error) {
	found := 0
	if r.viable < len(in) {
		found = int(in[r.viable])
	}
	msg := perr.Error()
	num := func(s string) int { n, _ := strconv.Atoi(s); return n }
	if m := reRule.FindStringSubmatch(msg); m != nil {
		if num(m[1]) != found {
			return "", fmt.Errorf("blames byte %s; the input stops being viable at offset %d, byte %d", m[1], r.viable, found)
		}
		if _, ok := a.idx[m[2]]; !ok {
			return "", fmt.Errorf("names <%s>, which is no rule", m[2])
		}
		return "no rule", nil
	}
	if m := reChar.FindStringSubmatch(msg); m != nil {
		if num(m[2]) != found {
			return "", fmt.Errorf("blames byte %s; the input stops being viable at offset %d, byte %d", m[2], r.viable, found)
		}
		if e := num(m[1]); e > 255 || !r.next.has(e) {
			return "", fmt.Errorf("expects byte %s, which cannot continue a sentence at offset %d", m[1], r.viable)
		}
		return "expected char", nil
	}
	if m := reEnd.FindStringSubmatch(msg); m != nil {
		if num(m[1]) != found {
			return "", fmt.Errorf("blames byte %s; the input stops being viable at offset %d, byte %d", m[1], r.viable, found)
		}
		if !r.next.has(End) {
			return "", fmt.Errorf("expects the end at offset %d, where no sentence ends", r.viable)
		}
		return "expected end", nil
	}
	// a message in other words: it has to show the byte somewhere
	for _, m := range reNum.FindAllString(msg, -1) {
		if v, err := strconv.ParseInt(m, 0, 64); err == nil && v == int64(found) {
			return "other words", nil
		}
		if v, err := strconv.ParseInt(m, 10, 64); err == nil && v == int64(found) {
			return "other words", nil
		}
	}
	if found > 0 && (strings.ContainsRune(msg, rune(found)) || strings.Contains(msg, string([]byte{byte(found)}))) {
		return "other words", nil
	}
	if r.viable == len(in) && (strings.Contains(msg, "end of") || strings.Contains(msg, "EOF")) {
		return "other words", nil
	}
	return "", errors.New("does not report the byte found")
}

func sameNames(a, b Names) error {
	if len(a) != len(b) {
		return fmt.Errorf("names %v, want %v", a, b)
	}
	for k, v := range b {
		if w, ok := a[k]; !ok || w != v {
			return fmt.Errorf("names %v, want %v", a, b)
		}
	}
	return nil
}

func headNames(g Gram) Names {
	r := Names{}
	for i, x := range g {
		r[i] = string(x.Head)
	}
	return r
}

func withBuiltin(n Names) Names {
	r := Names{}
	for k, v := range n {
		r[k] = v
	}
	r[TLit] = "_literal"
	r[TNil] = "_nothing"
	return r
}

type NameEnt struct {
	K int `json:"k"`
	V Raw `json:"v"`
}

type CaseNames struct {
	Ret  bool      `json:"ret,omitempty"`
	G    Gram      `json:"g"`
	In   []Raw     `json:"in"`
	Nil  bool      `json:"nil"`
	Own  bool      `json:"own"` // use the generated names
	Ents []NameEnt `json:"ents"`
}

type CaseMeta struct {
	G     Gram    `json:"g"`
	Rules []int   `json:"rules"` // new position of each rule
	Alts  [][]int `json:"alts"`  // per old rule, new position of each alternative
	Names []Raw   `json:"names"` // new name per old rule
	In    []Raw   `json:"in"`
}

func (c *CaseMeta) variant() Gram {
	n := make(Gram, len(c.G))
	ren := map[string]string{}
	for i, r := range c.G {
		ren[string(r.Head)] = string(c.Names[i])
	}
	for i, r := range c.G {
		x := Rule{Head: c.Names[i], Alts: make([][]Sym, len(r.Alts))}
		for j, alt := range r.Alts {
			na := make([]Sym, len(alt))
			for k, s := range alt {
				if s.K == KNon {
					s.S = ren[s.S]
				}
				na[k] = s
			}
			x.Alts[c.Alts[i][j]] = na
		}
		n[c.Rules[i]] = x
	}
	return n
}

func init() {
	// C10 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C10",
		Rule:     "a case is a grammar (mostly LL(1), some not, the built-in BNF one in 10%) with inputs (sentences, edits, any bytes, cut terminals, NULs, repetitions up to 8 KB); non-trivial: a parser was generated and some input of at least 2 bytes was parsed with it",
		Quick:    14000,
		Thorough: 300000,
		CPUSec:   20,
		New:      func() any { return &CaseGI{} },
		Gen: func(t *rapid.T) any {
			if c, ok := genRare(t, false); ok {
				return c
			}
			var g Gram
			switch weighted(t, 75, 15, 10) {
			case 0:
				g = genLL1(t, GOpt{})
			case 1:
				g = genConflict(t, GOpt{Small: true})
			default:
				g, _ = FromBNF(bnf.SelfGrammar())
			}
			a := analyze(g)
			c := &CaseGI{G: g}
			for i := 0; i < 6; i++ {
				c.In = append(c.In, Raw(genAnyInput(t, g, a)))
			}
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseGI)
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			ins := c.In
			for _, l := range c.Long {
				ins = append(ins[:len(ins):len(ins)], Raw(l.text()))
			}
			for _, x := range ins {
				in := string(x)
				if len(in) >= 2 {
					o.NonTrivial()
				}
				n, nm, perr, err := parse(p, in)
				if err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, clip(in, 200))
				}
				if perr != nil {
					o.Label("refused input")
					if perr.Error() == "" {
						return fmt.Errorf("empty error text\ngrammar %v\ninput %q", c.G, clip(in, 200))
					}
					continue
				}
				o.Label("accepted input")
				if nm == nil {
					return fmt.Errorf("accepted without names")
				}
				if err := checkSpans(n, len(in)); err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, clip(in, 200))
				}
			}
			return nil
		},
	})

	// C14 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C14",
		Rule:     "a case is a grammar with all rules productive (LL(1), made productive by added alternatives) with inputs (edits of sentences, cut sentences, sentences with more after them); non-trivial: at least one refused input whose blame is not at offset 0",
		Quick:    13000,
		Thorough: 250000,
		New:      func() any { return &CaseGI{} },
		Gen: func(t *rapid.T) any {
			switch uni(t, 300) {
			case 0:
				return genLong(t, true)
			case 1:
				return genFat(t)
			}
			g := genLL1(t, GOpt{Prod: true})
			a := analyze(g)
			c := &CaseGI{G: g}
			bs := g.bytesOf()
			for i := 0; i < 6; i++ {
				if !a.prod[0] || i == 5 {
					c.In = append(c.In, Raw(genInput(t, a, bs)))
					continue
				}
				s := genSentence(t, a, oneOf(t, 3, 10, 25, 60))
				switch i {
				case 0:
					s = s[:uni(t, len(s)+1)]
				case 1:
					s += string([]byte{oneOf(t, byte('a'), 0, 255, '\n', bs[uni(t, len(bs)+0)])})
				case 2:
					k := uni(t, len(s)+1)
					s = s[:k] + "\x00" + s[k:]
				default:
					for n := rng(t, 1, 2); n > 0; n-- {
						s = mutate(t, s, bs)
					}
				}
				c.In = append(c.In, Raw(s))
			}
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseGI)
			a := analyze(c.G)
			if !a.allProductive() {
				o.Label("outside the property: unproductive rule")
				return nil
			}
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			shape(a, o)
			if err := checkLong(c, a, p, o, true); err != nil {
				return err
			}
			e := newEarley(a)
			for _, x := range c.In {
				in := string(x)
				_, _, perr, err := parse(p, in)
				if err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, in)
				}
				if perr == nil {
					o.Label("accepted input")
					continue
				}
				r := e.run(in)
				if r.accepted {
					o.Label("sentence refused (see C01)")
					continue
				}
				if r.viable > 0 {
					o.NonTrivial()
				}
				kind, err := blame(a, r, in, perr)
				if err != nil {
					return fmt.Errorf("error %q %v\ngrammar %v\ninput %q", perr, err, c.G, in)
				}
				o.Label("error: %s", kind)
				if r.viable == len(in) {
					o.Label("blamed: end of input")
				} else if in[r.viable] == 0 {
					o.Label("blamed: NUL")
				}
			}
			return nil
		},
	})

	// C17 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C17",
		Rule:     "a case is an LL(1) grammar with inputs and a name map to build the parser with (the generated one; nil; empty; partial; with unrelated and negative keys, odd names); non-trivial: an input was accepted whose tree has at least 3 nodes",
		Quick:    15000,
		Thorough: 300000,
		New:      func() any { return &CaseNames{} },
		Gen: func(t *rapid.T) any {
			g := genLL1(t, GOpt{Small: pct(t, 70)})
			if uni(t, 300) == 0 {
				g = genWide(t)
			}
			a := analyze(g)
			c := &CaseNames{G: g}
			for i := 0; i < 3; i++ {
				if a.prod[0] && i < 2 {
					c.In = append(c.In, Raw(genSentence(t, a, oneOf(t, 2, 8, 30))))
				} else {
					c.In = append(c.In, Raw(genInput(t, a, g.bytesOf())))
				}
			}
			switch weighted(t, 35, 15, 40, 10) {
			case 0:
				c.Own = true
			case 3:
				c.Own, c.Ret = true, true
			case 1:
				c.Nil = true
			default:
				used := map[int]bool{}
				for n := uni(t, len(g)+3); n > 0; n-- {
					k := oneOf(t, -3, -2, -1, 0, len(g), len(g)+7, uni(t, len(g)), uni(t, len(g)), uni(t, len(g)))
					if !used[k] {
						used[k] = true
						c.Ents = append(c.Ents, NameEnt{k, Raw(oddNames[uni(t, len(oddNames))])})
					}
				}
			}
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseNames)
			_, table, names, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			if err := sameNames(names, headNames(c.G)); err != nil {
				return fmt.Errorf("generated %v\ngrammar %v", err, c.G)
			}
			var given Names
			switch {
			case c.Own:
				given = names
				o.Label("names: as generated")
			case c.Nil:
				o.Label("names: nil")
			default:
				given = Names{}
				for _, e := range c.Ents {
					given[e.K] = string(e.V)
				}
				o.Label("names: own map")
			}
			want := withBuiltin(given)
			if c.Ret {
				given = withBuiltin(given)
				o.Label("names: as returned by a parse")
			}
			p := parser.NewLL1Parser(table, given)
			for _, x := range c.In {
				in := string(x)
				n, nm, perr, err := parse(p, in)
				if err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, in)
				}
				if perr != nil {
					o.Label("refused input")
					continue
				}
				if err := sameNames(nm, want); err != nil {
					return fmt.Errorf("parse returned %v\ngrammar %v\ninput %q", err, c.G, in)
				}
				cnt := 0
				var rec func(n cst.Node) error
				rec = func(n cst.Node) error {
					cnt++
					got, ok := nm[n.Type()]
					exp, has := want[n.Type()]
					if c.Own {
						has = true
						switch {
						case n.Type() >= 0 && n.Type() < len(c.G):
							exp = string(c.G[n.Type()].Head)
						case len(n.Childs()) == 0 && n.Pos() == n.End():
							exp = "_nothing"
						case len(n.Childs()) == 0:
							exp = "_literal"
						default:
							has = false
						}
						if !has {
							return fmt.Errorf("node type %d is no rule and no leaf", n.Type())
						}
					}
					if ok != has || got != exp {
						return fmt.Errorf("node type %d resolves to %q (%v), want %q", n.Type(), got, ok, exp)
					}
					for _, k := range n.Childs() {
						if err := rec(k); err != nil {
							return err
						}
					}
					return nil
				}
				if err := rec(n); err != nil {
					return fmt.Errorf("%v\ngrammar %v\ninput %q", err, c.G, in)
				}
				nm[12345] = "mine" // the returned map is the caller's
				delete(nm, TLit)
				if cnt >= 3 {
					o.NonTrivial()
				}
			}
			return nil
		},
	})

	// C18 ------------------------------------------------------------------
	register(&Prop{
		ID:       "C18",
		Rule:     "a case is a grammar (LL(1), with few conflicts, or random and tiny) with permutations of its rules after the first and of the alternatives, new names, and inputs; non-trivial: something moved and (for accepted grammars) an input was accepted",
		Quick:    13000,
		Thorough: 300000,
		New:      func() any { return &CaseMeta{} },
		Gen: func(t *rapid.T) any {
			var g Gram
			switch weighted(t, 50, 25, 25) {
			case 0:
				g = genLL1(t, GOpt{})
			case 1:
				g = genConflict(t, GOpt{Small: pct(t, 60)})
			default:
				g = genTiny(t)
			}
			if uni(t, 300) == 0 {
				g = genWide(t)
			}
			c := &CaseMeta{G: g}
			c.Rules = append(c.Rules, 0)
			for _, x := range perm(t, len(g)-1) {
				c.Rules = append(c.Rules, x+1)
			}
			keep := pct(t, 30)
			names := genNames(t, len(g), false)
			for i := range g {
				c.Alts = append(c.Alts, perm(t, len(g[i].Alts)))
				if keep {
					c.Names = append(c.Names, g[i].Head)
				} else {
					c.Names = append(c.Names, Raw(names[i]))
				}
			}
			a := analyze(g)
			c.In = genInputs(t, g, a, 5)
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseMeta)
			v := c.variant()
			moved := !v.equal(c.G)
			p1, _, n1, err1 := build(c.G)
			p2, _, n2, err2 := build(v)
			if (err1 == nil) != (err2 == nil) {
				return fmt.Errorf("one form is refused: %v / %v\ngrammar %v\nvariant %v", err1, err2, c.G, v)
			}
			if err1 != nil {
				if moved {
					o.NonTrivial()
				}
				o.Label("both refused")
				return nil
			}
			o.Label("both accepted")
			for i := range c.G {
				if n1[i] != string(c.G[i].Head) || n2[c.Rules[i]] != string(c.Names[i]) {
					return fmt.Errorf("rule %d is named %q / %q\ngrammar %v\nvariant %v", i, n1[i], n2[c.Rules[i]], c.G, v)
				}
			}
			for _, x := range c.In {
				in := string(x)
				t1, _, e1, err := parse(p1, in)
				if err != nil {
					return err
				}
				t2, _, e2, err := parse(p2, in)
				if err != nil {
					return err
				}
				if (e1 == nil) != (e2 == nil) {
					return fmt.Errorf("only one form accepts %q: %v / %v\ngrammar %v\nvariant %v", in, e1, e2, c.G, v)
				}
				if e1 != nil {
					o.Label("input refused")
					continue
				}
				o.Label("input accepted")
				if moved {
					o.NonTrivial()
				}
				s := snap(t1)
				var ren func(n *RT)
				ren = func(n *RT) {
					if n.T >= 0 && n.T < len(c.Rules) {
						n.T = c.Rules[n.T]
					}
					for _, k := range n.K {
						ren(k)
					}
				}
				ren(s)
				if err := sameTree(t2, s); err != nil {
					return fmt.Errorf("trees differ on %q: %v\ngrammar %v\nvariant %v\ntree %v\nvariant's %v", in, err, c.G, v, snap(t1), snap(t2))
				}
			}
			return nil
		},
	})
}
