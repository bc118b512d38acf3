package main

// C28: a part of a sentence is parsed as it would be alone, and can be replaced
// by another part of its kind.

import (
	"fmt"

	"pgregory.net/rapid"
)

type Part struct {
	At  int `json:"at"` // which of the rule nodes, in preorder
	Sub Raw `json:"sub"`
}

type CasePart struct {
	G     Gram   `json:"g"`
	In    BigIn  `json:"in"`
	Parts []Part `json:"parts"`
}

// from is the grammar with rule r first; the rules before it move up by one.
func (g Gram) from(r int) Gram {
	return append(append(Gram{g[r]}, g[:r:r]...), g[r+1:]...)
}

// ruleNodes lists the nodes of rules in preorder.
func ruleNodes(n *RT, l []*RT) []*RT {
	if n.T >= 0 {
		l = append(l, n)
	}
	for _, k := range n.K {
		l = ruleNodes(k, l)
	}
	return l
}

// moved is a tree with other rule numbers at another place.
func moved(n *RT, num func(int) int, by int) *RT {
	r := &RT{n.T, n.S + by, n.E + by, nil}
	if n.T >= 0 {
		r.T = num(n.T)
	}
	for _, k := range n.K {
		r.K = append(r.K, moved(k, num, by))
	}
	return r
}

// replaced is the tree n with the part x, which stands at a node, replaced by y.
func replaced(n, x, y *RT, by int) *RT {
	past := false
	var f func(*RT) *RT
	f = func(n *RT) *RT {
		if n == x {
			past = true
			return y
		}
		r := &RT{n.T, n.S, n.E, nil}
		if past {
			r.S += by
		}
		for _, k := range n.K {
			r.K = append(r.K, f(k))
		}
		if past {
			r.E += by
		}
		if r.T >= 0 && r.S == r.E { // what derives the empty string has no parts
			r.K = []*RT{{TNil, r.S, r.S, nil}}
		}
		return r
	}
	return f(n)
}

func checkPart(c *CasePart, o *Obs) error {
	p, _, _, err := build(c.G)
	if err != nil {
		o.Label("refused by the library")
		return nil
	}
	in := c.In.text()
	whole, err := run1(p, in)
	if err != nil {
		return err
	}
	if whole.err != "" {
		o.Label("input refused")
		return nil
	}
	nodes := ruleNodes(whole.tree, nil)
	for _, x := range c.Parts {
		n := nodes[x.At%len(nodes)]
		ctx := func(f string, v ...any) error {
			return fmt.Errorf("%s\ngrammar %v\ninput of %d bytes %q\npart [%d,%d) of rule %d", fmt.Sprintf(f, v...), c.G, len(in), clip(in, 300), n.S, n.E, n.T)
		}
		if n.T >= len(c.G) || n.S < 0 || n.E < n.S || n.E > len(in) {
			return ctx("no such part")
		}
		q, _, _, err := build(c.G.from(n.T))
		if err != nil {
			return ctx("no table with this rule first: %v", err)
		}
		num := func(i int) int { // in the grammar of q
			if i == n.T {
				return 0
			}
			if i < n.T {
				return i + 1
			}
			return i
		}
		back := func(i int) int {
			if i == 0 {
				return n.T
			}
			if i <= n.T {
				return i - 1
			}
			return i
		}
		part, err := run1(q, in[n.S:n.E])
		if err != nil {
			return ctx("%v", err)
		}
		if part.err != "" {
			return ctx("refused alone: %s", part.err)
		}
		if want := moved(n, num, -n.S); !eqRT(part.tree, want) {
			return ctx("alone it is %v, in its place %v", part.tree, want)
		}
		o.Label("part parsed alone")
		if n.E > n.S && n.E-n.S < len(in) {
			o.NonTrivial()
		}
		sub, err := run1(q, string(x.Sub))
		if err != nil {
			return ctx("%v", err)
		}
		if sub.err != "" { // drawn for another rule
			o.Label("replacement is not of this rule")
			continue
		}
		by := len(x.Sub) - (n.E - n.S)
		text := in[:n.S] + string(x.Sub) + in[n.E:]
		got, err := run1(p, text)
		if err != nil {
			return ctx("%v", err)
		}
		if got.err != "" {
			return ctx("with %q in its place: refused: %s", string(x.Sub), got.err)
		}
		if want := replaced(whole.tree, n, moved(sub.tree, back, n.S), by); !eqRT(got.tree, want) {
			return ctx("with %q in its place: %v, want %v", string(x.Sub), got.tree, want)
		}
		o.Label("part replaced")
	}
	return nil
}

func genPart(t *rapid.T) any {
	c := &CasePart{}
	switch uni(t, 250) {
	case 0:
		l := genLong(t, true)
		c.G = l.G
		for _, b := range l.Long {
			if c.In.N == 0 || pct(t, 30) {
				c.In = b
			}
		}
	case 1:
		c.G = genFat(t).G
	default:
		c.G = genLL1(t, GOpt{Prod: true})
	}
	a := analyze(c.G)
	if !a.prod[0] {
		c.G = simple.clone()
		a = analyze(c.G)
	}
	if c.In.N == 0 {
		c.In = BigIn{Mid: Raw(genSentence(t, a, oneOf(t, 3, 8, 20, 60))), N: 1}
	}
	tree, rerr := refParse(a, c.In.text())
	if rerr != nil {
		return c
	}
	nodes := ruleNodes(tree, nil)
	for k := oneOf(t, 1, 2, 3); k > 0; k-- {
		at := uni(t, len(nodes))
		for i := 0; i < 6 && (nodes[at].S == nodes[at].E || nodes[at].E-nodes[at].S == tree.E); i++ {
			at = uni(t, len(nodes))
		}
		b := analyze(c.G.from(nodes[at].T))
		c.Parts = append(c.Parts, Part{at, Raw(genSentence(t, b, oneOf(t, 0, 3, 10, 30)))})
	}
	return c
}

func init() {
	register(&Prop{
		ID:       "C28",
		Rule:     "a case is an LL(1) grammar, a sentence (now and then of 70000 bytes), and one to three of the rule nodes of its tree, each with another sentence of the node's rule; the text of a node is parsed by the parser of the grammar with that rule first, and the other sentence is put in its place; non-trivial: a part that is neither empty nor everything",
		Quick:    9000,
		Thorough: 150000,
		New:      func() any { return &CasePart{} },
		Gen:      genPart,
		Check:    func(ci any, o *Obs) error { return checkPart(ci.(*CasePart), o) },
	})
}
