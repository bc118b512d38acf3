package main

// C26: the built-in notation describes itself.

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CaseBoot struct {
	Self Raw   `json:"self"` // the built-in grammar, as a text
	Gens int   `json:"gens"`
	Text []Raw `json:"text"`
}

// through reads a text with a parser for BNF texts.
func (b *bootGen) through(text string) (o outcome, g Gram, ast *bnf.Grammar, err error) {
	o, err = run1(b.p, text)
	if err != nil || o.err != "" {
		return o, nil, nil, err
	}
	n, _, _, err := parse(b.p, text)
	if err != nil {
		return o, nil, nil, err
	}
	bd := fromcst.SelfCSTtoASTBindings()
	ast, err = bd.ToAST(n, text)
	if err != nil {
		return o, nil, nil, fmt.Errorf("accepted text %q does not convert: %w", text, err)
	}
	g, err = FromBNF(*ast)
	return o, g, ast, err
}

type bootGen struct {
	p     parser.LL1Parser
	names Names
}

func checkBoot(c *CaseBoot, o *Obs) error {
	self := bnf.SelfGrammar()
	g0, err := FromBNF(self)
	if err != nil {
		return err
	}
	if g, ok, _ := refBNF(string(c.Self), stdEscapes); !ok || !g.equal(g0) {
		return bug("%q is not the built-in grammar", c.Self)
	}
	p, _, nm, err := buildBNF(self)
	if err != nil {
		return fmt.Errorf("no table for the built-in grammar: %w", err)
	}
	first := &bootGen{p, nm}
	cur, text := first, string(c.Self)
	for i := 1; i <= c.Gens; i++ {
		out, g, ast, err := cur.through(text)
		if err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		if out.err != "" {
			return fmt.Errorf("generation %d: the built-in grammar is refused as text: %s\ntext %q", i, out.err, text)
		}
		if !g.equal(g0) {
			return fmt.Errorf("generation %d: the built-in grammar reads as another grammar\nread %v\ntext %q", i, g, text)
		}
		p, _, nm, err := buildBNF(*ast)
		if err != nil {
			return fmt.Errorf("generation %d: no table: %w", i, err)
		}
		if err := sameNames(nm, first.names); err != nil {
			return fmt.Errorf("generation %d: %v", i, err)
		}
		cur, text = &bootGen{p, nm}, ast.String()
	}
	accepted := 0
	for _, x := range c.Text {
		a, ga, _, err := first.through(string(x))
		if err != nil {
			return err
		}
		b, gb, _, err := cur.through(string(x))
		if err != nil {
			return fmt.Errorf("generation %d: %v", c.Gens, err)
		}
		if err := b.same(a); err != nil {
			return fmt.Errorf("generation %d: text %q: %v", c.Gens, x, err)
		}
		if a.err == "" {
			accepted++
			if !gb.equal(ga) {
				return fmt.Errorf("generation %d: text %q reads as %v, want %v", c.Gens, x, gb, ga)
			}
			o.Label("text accepted")
		} else {
			o.Label("text refused")
		}
	}
	o.Label("%d generations", c.Gens)
	if accepted >= 2 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	var g0 Gram
	register(&Prop{
		ID:       "C26",
		Rule:     "a case is the built-in grammar written in a drawn layout, a number of generations (1-3) and four texts (the built-in grammar itself, grammars in drawn layouts with 0-4 edits); the parser each generation gives is compared with the first on every text: tree, names, error text and converted grammar; non-trivial: two texts are accepted",
		Quick:    500,
		Thorough: 40000,
		Init: func() (err error) {
			g0, err = FromBNF(bnf.SelfGrammar())
			return
		},
		New: func() any { return &CaseBoot{} },
		Gen: func(t *rapid.T) any {
			c := &CaseBoot{Self: Raw(layout(t, g0)), Gens: rng(t, 1, 3)}
			for i := 0; i < 4; i++ {
				g := g0
				if pct(t, 85) {
					g = genBNF(t)
				}
				s := layout(t, g)
				for n := oneOf(t, 0, 0, 1, 1, 2, 4); n > 0; n-- {
					s = editText(t, s)
				}
				c.Text = append(c.Text, Raw(s))
			}
			return c
		},
		Check: func(ci any, o *Obs) error { return checkBoot(ci.(*CaseBoot), o) },
	})
}
