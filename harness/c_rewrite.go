package main

// C27: rewriting a grammar into an equivalent one changes nothing that matters.

import (
	"fmt"

	"pgregory.net/rapid"
)

type CaseRewrite struct {
	G   Gram   `json:"g"`
	H   Gram   `json:"h"`   // the rewritten grammar
	How string `json:"how"` // what was done
	Map []int  `json:"map,omitempty"`
	W   []int  `json:"w,omitempty"` // rules of H that G does not have
	In  []Raw  `json:"in"`
}

// other is the input for the rewritten grammar.
func (c *CaseRewrite) other(s string) string {
	if c.Map == nil {
		return s
	}
	b := []byte(s)
	for i := range b {
		b[i] = byte(c.Map[b[i]])
	}
	return string(b)
}

// bare drops literals and the nodes of additional rules from a tree.
func bare(n *RT, w map[int]bool) []*RT {
	if n.T < 0 {
		return nil
	}
	var kids []*RT
	for _, k := range n.K {
		kids = append(kids, bare(k, w)...)
	}
	if w[n.T] {
		return kids
	}
	return []*RT{{n.T, n.S, n.E, kids}}
}

func checkRewrite(c *CaseRewrite, o *Obs) error {
	p, _, _, err1 := build(c.G)
	q, _, _, err2 := build(c.H)
	if (err1 == nil) != (err2 == nil) {
		return fmt.Errorf("%s: one form is refused: %v / %v\ngrammar %v\nrewritten %v", c.How, err1, err2, c.G, c.H)
	}
	o.Label(c.How)
	if err1 != nil {
		o.Label("both refused")
		o.NonTrivial()
		return nil
	}
	w := map[int]bool{}
	for _, r := range c.W {
		w[r] = true
	}
	for _, x := range c.In {
		in := string(x)
		t1, _, e1, err := parse(p, in)
		if err != nil {
			return err
		}
		t2, _, e2, err := parse(q, c.other(in))
		if err != nil {
			return err
		}
		if (e1 == nil) != (e2 == nil) {
			return fmt.Errorf("%s: only one form accepts %q (%q): %v / %v\ngrammar %v\nrewritten %v", c.How, in, c.other(in), e1, e2, c.G, c.H)
		}
		if e1 != nil {
			o.Label("input refused")
			continue
		}
		o.Label("input accepted")
		o.NonTrivial()
		s1, s2 := snap(t1), snap(t2)
		if c.Map == nil {
			b1, b2 := bare(s1, nil), bare(s2, w)
			if len(b1) != 1 || len(b2) != 1 {
				return fmt.Errorf("%s: root node missing: %v / %v", c.How, s1, s2)
			}
			s1, s2 = b1[0], b2[0]
		}
		if !eqRT(s1, s2) {
			return fmt.Errorf("%s: input %q: trees differ\n%v\n%v\ngrammar %v\nrewritten %v", c.How, in, s1, s2, c.G, c.H)
		}
	}
	return nil
}

func genRewrite(t *rapid.T) any {
	var g Gram
	switch weighted(t, 60, 25, 15) {
	case 0:
		g = genLL1(t, GOpt{})
	case 1:
		g = genConflict(t, GOpt{Small: pct(t, 60)})
	default:
		g = genTiny(t)
	}
	if uni(t, 400) == 0 {
		g = genWide(t)
	}
	a := analyze(g)
	c := &CaseRewrite{G: g, H: g.clone()}
	c.In = genInputs(t, g, a, 5)
	name := func(s string) Raw {
		for a.has(Raw(s)) {
			s += "x"
		}
		return Raw(s)
	}
	term := func() *Sym { // a terminal of H of two or more bytes
		var l []*Sym
		for i := range c.H {
			for j := range c.H[i].Alts {
				for k := range c.H[i].Alts[j] {
					if s := &c.H[i].Alts[j][k]; s.K == KTerm && len(s.S) > 1 {
						l = append(l, s)
					}
				}
			}
		}
		if len(l) == 0 {
			return nil
		}
		return l[uni(t, len(l))]
	}
	kind := uni(t, 4)
	if kind == 1 && term() == nil {
		kind = 2
	}
	switch kind {
	case 0:
		c.How = "other bytes"
		c.Map = make([]int, 256)
		if pct(t, 50) {
			for i, x := range perm(t, 255) {
				c.Map[i+1] = x + 1
			}
		} else { // turned around, shifted or with the halves swapped
			f := oneOf(t, 0, 1, 2)
			d := rng(t, 1, 254)
			for i := 1; i < 256; i++ {
				switch f {
				case 0:
					c.Map[i] = 256 - i
				case 1:
					c.Map[i] = (i-1+d)%255 + 1
				case 2:
					c.Map[i] = i
					if i != 128 {
						c.Map[i] = i ^ 128
					}
				}
			}
		}
		for i := range c.H {
			for j := range c.H[i].Alts {
				for k := range c.H[i].Alts[j] {
					if s := &c.H[i].Alts[j][k]; s.K == KTerm {
						s.S = c.other(s.S)
					}
				}
			}
		}
	case 1:
		c.How = "terminals split"
		for i := range c.H {
			for j, alt := range c.H[i].Alts {
				var r []Sym
				for _, s := range alt {
					for s.K == KTerm && len(s.S) > 1 && pct(t, 70) {
						k := rng(t, 1, len(s.S)-1)
						if s.S[k] == 0 {
							break // a terminal cannot begin with NUL
						}
						r = append(r, T(s.S[:k]))
						s.S = s.S[k:]
					}
					r = append(r, s)
				}
				c.H[i].Alts[j] = r
			}
		}
	case 2:
		c.How = "parts given names"
		for n := rng(t, 1, 3); n > 0; n-- {
			i := uni(t, len(g))
			if pct(t, 30) {
				i = uni(t, len(c.H))
			}
			j := uni(t, len(c.H[i].Alts))
			alt := c.H[i].Alts[j]
			if len(alt) == 0 || alt[0].K == KNil {
				continue
			}
			lo := uni(t, len(alt))
			hi := rng(t, lo+1, len(alt))
			null := true // the part could be empty: its node would be, too
			for _, s := range alt[lo:hi] {
				null = null && s.K == KNon && (!a.has(Raw(s.S)) || a.nullable[a.idx[s.S]])
			}
			if null {
				continue
			}
			w := name(fmt.Sprintf("W%d", len(c.H)))
			part := append([]Sym{}, alt[lo:hi]...)
			c.H[i].Alts[j] = append(append(append([]Sym{}, alt[:lo]...), N(string(w))), alt[hi:]...)
			c.W = append(c.W, len(c.H))
			c.H = append(c.H, Rule{w, [][]Sym{part}})
		}
	case 3:
		c.How = "unused rules added"
		for n := rng(t, 1, 4); n > 0; n-- {
			w := name(fmt.Sprintf("U%d", len(c.H)))
			r := Rule{w, [][]Sym{{T(oneOf(t, "a", "u", "\xff"))}}}
			if pct(t, 50) {
				r.Alts = append(r.Alts, []Sym{T("("), N(string(w)), T(")")})
			}
			if pct(t, 40) {
				r.Alts = append(r.Alts, []Sym{Eps})
			}
			c.H = append(c.H, r)
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID:       "C27",
		Rule:     "a case is a grammar (LL(1), with few conflicts, or random and tiny), the same grammar rewritten (other bytes, terminals split, parts of alternatives given names of their own, unused rules added) and five inputs; verdicts have to agree, and trees up to what was rewritten; non-trivial: an input is accepted, or both grammars are refused",
		Quick:    12000,
		Thorough: 300000,
		New:      func() any { return &CaseRewrite{} },
		Gen:      genRewrite,
		Check:    func(ci any, o *Obs) error { return checkRewrite(ci.(*CaseRewrite), o) },
	})
}
