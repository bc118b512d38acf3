package main

// C23: from text to parser.

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CasePipe struct {
	Text Raw   `json:"text"`
	In   []Raw `json:"in"`
}

// pipeline does what the examples do; stage names where it ended.
func pipeline(text string) (p parser.LL1Parser, names Names, stage string, refusal error, err error) {
	if selfP == nil {
		if selfP, err = selfParser(); err != nil {
			selfP = nil
			return nil, nil, "", nil, fmt.Errorf("no table for the built-in grammar: %w", err)
		}
	}
	n, _, perr, err := parse(selfP, text)
	if err != nil || perr != nil {
		return nil, nil, "parse", perr, err
	}
	ast, cerr := fromcst.SelfCSTtoASTBindings().ToAST(n, text)
	if cerr != nil {
		return nil, nil, "convert", cerr, nil
	}
	p, _, names, terr := buildBNF(*ast)
	if terr != nil {
		return nil, nil, "table", terr, nil
	}
	return p, names, "", nil, nil
}

func checkPipe(c *CasePipe, o *Obs) error {
	text := string(c.Text)
	g, ok, _ := refBNF(text, stdEscapes)
	p, _, stage, refusal, err := pipeline(text)
	if err != nil {
		return err
	}
	if !ok {
		o.Label("text does not conform")
		if len(text) > 4 {
			o.NonTrivial()
		}
		if refusal == nil {
			return fmt.Errorf("text %q does not conform but gives a parser", text)
		}
		return nil
	}
	if w := wellFormed(g); w != "" {
		o.Label("malformed: %s", w)
		o.NonTrivial()
		if refusal == nil {
			return fmt.Errorf("text %q (%s) gives a parser", text, w)
		}
		return nil
	}
	a := analyze(g)
	if a.dormant() {
		o.Label("ambiguous unreachable rule: skipped")
		return nil
	}
	if !a.ll1() {
		o.Label("not LL(1)")
		o.NonTrivial()
		if refusal == nil {
			return fmt.Errorf("text %q is not LL(1) (%+v) but gives a parser", text, a.conf[0])
		}
		return nil
	}
	o.Label("LL(1)")
	if refusal != nil {
		return fmt.Errorf("text %q describes an LL(1) grammar but is refused (%s): %v", text, stage, refusal)
	}
	e := newEarley(a)
	acc := 0
	for _, in := range c.In {
		s := string(in)
		want := e.run(s).accepted
		n, _, perr, err := parse(p, s)
		if err != nil {
			return err
		}
		if want != (perr == nil) {
			return fmt.Errorf("input %q: in the language: %v, parser: %v\ngrammar %v", s, want, perr, g)
		}
		if !want {
			o.Label("input refused")
			continue
		}
		o.Label("input accepted")
		acc++
		if err := checkTree(a, n, s); err != nil {
			return fmt.Errorf("input %q: %v\ngrammar %v", s, err, g)
		}
		if rt, rerr := refParse(a, s); rerr != nil {
			return bug("refParse refuses %q: %v", s, rerr)
		} else if err := sameTree(n, rt); err != nil {
			return fmt.Errorf("input %q: %v\ngrammar %v", s, err, g)
		}
	}
	if acc >= 2 && len(g) >= 2 {
		o.NonTrivial()
	}
	return nil
}

func genPipe(t *rapid.T) any {
	c := &CasePipe{}
	small := pct(t, 65)
	kind := weighted(t, 58, 17, 10, 15)
	var g Gram
	switch kind {
	case 1:
		g = genConflict(t, GOpt{BNF: true, Small: small})
	case 2:
		g = plantFlaw(t, genLL1(t, GOpt{BNF: true, Small: small}), false)
	default:
		g = genLL1(t, GOpt{BNF: true, Small: small})
	}
	s := layout(t, g)
	if kind == 3 {
		for k := oneOf(t, 1, 1, 2, 3); k > 0; k-- {
			s = editText(t, s)
		}
	}
	c.Text = Raw(s)
	if r, ok, _ := refBNF(s, stdEscapes); ok && wellFormed(r) == "" {
		if a := analyze(r); a.ll1() {
			c.In = genInputs(t, r, a, 6)
		}
	}
	return c
}

func init() {
	register(&Prop{
		ID:       "C23",
		Rule:     "a case is a BNF text in drawn layout (LL(1), with conflicts, malformed, or edited) and six inputs; the end of the pipeline is compared with an independent reading of the text, LL(1) analysis, Earley recognition and expected trees; non-trivial: an LL(1) grammar of at least two rules with two accepted inputs, or a text that must not give a parser",
		Quick:    9000,
		Thorough: 500000,
		New:      func() any { return &CasePipe{} },
		Gen:      genPipe,
		Check:    func(ci any, o *Obs) error { return checkPipe(ci.(*CasePipe), o) },
	})
}
