package main

// C20: conversion with renumbered meta-grammars and other bindings.

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CaseBind struct {
	Perm  []int       `json:"perm"`            // new place of each rule but the first
	Split bool        `json:"split,omitempty"` // rule heads get a type of their own
	Ign   []int       `json:"ign"`             // ignored types, in built-in numbers
	Swap  bool        `json:"swap,omitempty"`
	Dup   bool        `json:"dup,omitempty"`
	Esc   map[Raw]Raw `json:"esc"`
	Text  Raw         `json:"text"`
	Far   int         `json:"far,omitempty"` // renumber the tree itself by this factor

	Own *CaseDialect `json:"own,omitempty"` // another notation altogether
}

// the built-in grammar as documented above bnf.SelfGrammar: the bindings'
// meaning of its rule numbers
var selfNames = struct{ content, head, tail, list, term, text1, text2, name, escaped, eol, ws string }{
	"content", "rule-name", "expression", "list", "term", "text1", "text2", "rule-name", "escaped-char", "EOL", "opt-whitespace"}

func identityPerm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	return p
}

type bindEnv struct {
	p    parser.LL1Parser
	bind fromcst.BNFCSTtoASTBindings
}

func (c *CaseBind) env() (*bindEnv, error) {
	self, err := FromBNF(bnf.SelfGrammar())
	if err != nil {
		return nil, err
	}
	n := len(self)
	if len(c.Perm) != n || c.Perm[0] != 0 {
		return nil, bug("permutation of %d for %d rules", len(c.Perm), n)
	}
	orig := map[string]int{}
	for i, r := range self {
		orig[string(r.Head)] = i
	}
	g := make(Gram, n)
	for i, r := range self.clone() {
		g[c.Perm[i]] = r
	}
	if c.Split {
		i, j := -1, -1
		for k, r := range g {
			switch string(r.Head) {
			case selfNames.content:
				i = k
			case selfNames.name:
				j = k
			}
		}
		if i < 0 || j < 0 {
			return nil, fmt.Errorf("the built-in grammar has no rule <content> or <rule-name>")
		}
		for k, s := range g[i].Alts[0] {
			if s == N(selfNames.name) {
				g[i].Alts[0][k] = N("head-name")
			}
		}
		h := Gram{g[j]}.clone()[0]
		h.Head = "head-name"
		g = append(g, h)
	}
	p, _, _, err := build(g)
	if err != nil {
		return nil, fmt.Errorf("no table for the renumbered built-in grammar: %v", err)
	}
	num := func(x int) int {
		if x >= 0 && x < n {
			x = c.Perm[x]
		}
		if c.Far > 0 && x >= 0 {
			x = x*c.Far + 7
		}
		return x
	}
	b := fromcst.SelfCSTtoASTBindings()
	own := b.IgnoreNodeTypes
	b.IgnoreNodeTypes = nil
	for _, x := range c.Ign {
		b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, num(x))
	}
	for k, x := range own { // what the built-in bindings ignore stays ignored
		if c.Dup || k > 0 {
			b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, num(x))
		}
		if k == 0 {
			b.IgnoreNodeTypes = append([]int{num(x)}, b.IgnoreNodeTypes...)
			if len(c.Ign) > 0 { // not always in front
				m := len(c.Ign) / 2
				b.IgnoreNodeTypes[0], b.IgnoreNodeTypes[m] = b.IgnoreNodeTypes[m], b.IgnoreNodeTypes[0]
			}
		}
	}
	b.RuleType, b.RuleHeadType, b.RuleTailType = num(b.RuleType), num(b.RuleHeadType), num(b.RuleTailType)
	if c.Split {
		b.RuleHeadType = num(n)
	}
	b.ExpressionSequencesType, b.SequencesSymbolType = num(b.ExpressionSequencesType), num(b.SequencesSymbolType)
	ts := []int{}
	for _, x := range b.SymbolTerminalTypes {
		ts = append(ts, num(x))
	}
	if c.Swap {
		for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
			ts[i], ts[j] = ts[j], ts[i]
		}
	}
	if c.Dup {
		ts = append(ts, ts...)
	}
	b.SymbolTerminalTypes = ts
	b.SymbolNonTerminalType, b.EscapeCharacterType = num(b.SymbolNonTerminalType), num(b.EscapeCharacterType)
	b.EscapeMapping = map[string]string{}
	for k, v := range c.Esc {
		b.EscapeMapping[string(k)] = string(v)
	}
	return &bindEnv{p, b}, nil
}

func renumber(n cst.Node, f int) cst.Node {
	var k []cst.Node
	for _, x := range n.Childs() {
		k = append(k, renumber(x, f))
	}
	t := n.Type()
	if t >= 0 {
		t = t*f + 7
	}
	return cst.NewNode(t, n.Pos(), n.End(), k)
}

func checkBind(c *CaseBind, o *Obs) error {
	if c.Own != nil {
		return checkDialect(c.Own, o)
	}
	e, err := c.env()
	if err != nil {
		return err
	}
	esc := map[string]string{}
	for k, v := range c.Esc {
		esc[string(k)] = string(v)
	}
	text := string(c.Text)
	want, ok, unmapped := refBNF(text, esc)
	if !ok {
		return bug("the text does not conform: %q", text)
	}
	n, _, perr, err := parse(e.p, text)
	if err != nil {
		return err
	}
	if perr != nil {
		return fmt.Errorf("the renumbered parser refuses %q: %v", text, perr)
	}
	if c.Far > 0 {
		n = renumber(n, c.Far)
		o.Label("types far apart")
	}
	ast, cerr := e.bind.ToAST(n, text)
	if c.Split {
		o.Label("separate head type")
	}
	if unmapped {
		o.Label("escape without mapping")
		o.NonTrivial()
		if cerr == nil {
			return fmt.Errorf("escape without mapping %v is not an error: %q", esc, text)
		}
		return nil
	}
	if cerr != nil {
		return fmt.Errorf("conversion of %q fails: %v\nescapes %v", text, cerr, esc)
	}
	if ast == nil {
		return fmt.Errorf("neither grammar nor error")
	}
	got, err := FromBNF(*ast)
	if err != nil {
		return err
	}
	if !got.equal(want) {
		return fmt.Errorf("text %q converts to\n%v\nwant\n%v\nescapes %v", text, got, want, esc)
	}
	if err := checkParts(n, text, e.bind, want); err != nil {
		return err
	}
	for i := range c.Perm {
		if c.Perm[i] != i {
			o.NonTrivial()
			o.Label("renumbered")
			break
		}
	}
	if len(esc) > 0 && !sameEsc(esc) {
		o.Label("other escape mapping")
	}
	for i := 0; i+1 < len(text); i++ {
		if text[i] == '\\' {
			o.Label("text with escape")
			break
		}
	}
	return nil
}

// checkParts converts parts of a tree: each gives the rules in it.
func checkParts(root cst.Node, text string, b fromcst.BNFCSTtoASTBindings, whole Gram) error {
	ignored := map[int]bool{}
	for _, x := range b.IgnoreNodeTypes {
		ignored[x] = true
	}
	type part struct {
		n        cst.Node
		from, to int
	}
	var parts []part
	rules := 0
	var rec func(n cst.Node)
	rec = func(n cst.Node) {
		from := rules
		switch {
		case ignored[n.Type()]:
		case n.Type() == b.RuleType:
			rules++
		default:
			for _, k := range n.Childs() {
				rec(k)
			}
		}
		parts = append(parts, part{n, from, rules})
	}
	rec(root)
	if rules != len(whole) {
		return nil // not a list of rules, say
	}
	step := 1 + len(parts)/10
	for i := len(text) % step; i < len(parts); i += step {
		x := parts[i]
		ast, err := b.ToAST(x.n, text)
		if err != nil {
			return fmt.Errorf("conversion of the part [%d,%d) of type %d fails: %v\ntext %q", x.n.Pos(), x.n.End(), x.n.Type(), err, text)
		}
		got, err := FromBNF(*ast)
		if err != nil {
			return err
		}
		if !got.equal(whole[x.from:x.to]) {
			return fmt.Errorf("the part [%d,%d) of type %d of %q converts to\n%v\nwant\n%v", x.n.Pos(), x.n.End(), x.n.Type(), text, got, whole[x.from:x.to])
		}
	}
	return nil
}

func sameEsc(e map[string]string) bool {
	if len(e) != len(stdEscapes) {
		return false
	}
	for k, v := range stdEscapes {
		if e[k] != v {
			return false
		}
	}
	return true
}

func genBind(t *rapid.T) any {
	if pct(t, 40) {
		return &CaseBind{Own: genDialect(t)}
	}
	c := &CaseBind{Perm: identityPerm(26), Esc: map[Raw]Raw{}, Ign: []int{}}
	switch weighted(t, 10, 40, 50) {
	case 1: // swap a few
		for k := rng(t, 1, 4); k > 0; k-- {
			i, j := rng(t, 1, 25), rng(t, 1, 25)
			c.Perm[i], c.Perm[j] = c.Perm[j], c.Perm[i]
		}
	case 2:
		for i, x := range perm(t, 25) {
			c.Perm[i+1] = x + 1
		}
	}
	c.Split = pct(t, 25)
	for k := oneOf(t, 0, 0, 1, 2, 3, 5); k > 0; k-- {
		c.Ign = append(c.Ign, oneOf(t, 24, 24, 25, 999, 1<<40, -2, -77, 30, 26+k*3+1))
	}
	c.Swap, c.Dup = pct(t, 40), pct(t, 15)
	if pct(t, 15) {
		c.Far = oneOf(t, 2, 3, 100, 1<<20)
	}
	for k, v := range stdEscapes {
		c.Esc[Raw(k)] = Raw(v)
	}
	if pct(t, 55) {
		for _, k := range []Raw{"t", "n", "r", `"`, `\`} {
			switch weighted(t, 40, 45, 15) {
			case 1:
				c.Esc[k] = oneOf(t, Raw("XY"), "", "<", "|", `"`, "'", "\\", "\x00", "\xff\x80", "\n", "tab", "n", "t", k, " ", "\\t")
			case 2:
				delete(c.Esc, k)
			}
		}
		if pct(t, 30) {
			c.Esc["x"] = "never"
			c.Esc[""] = "never"
		}
	}
	g := genBNF(t)
	if len(g) > 40 {
		g = g[:40]
	}
	if pct(t, 60) { // escapes
		for k := rng(t, 1, 4); k > 0; k-- {
			b := make([]byte, oneOf(t, 1, 1, 2, 3, 6))
			for i := range b {
				b[i] = oneOf[byte](t, '\t', '\n', '\r', '"', '\\', '\\', 'a', 't', '\'')
			}
			i := uni(t, len(g))
			g[i].Alts = append(g[i].Alts, []Sym{T(string(b))})
		}
	}
	c.Text = Raw(layout(t, g))
	return c
}

func init() {
	register(&Prop{
		ID:       "C20",
		Rule:     "a case is a permutation of the built-in grammar's rules (the first stays first, sometimes with a separate rule for head names, sometimes with types spread out in the tree), bindings renumbered to match with the ignored types in any order and joined by types without content, an escape mapping, and a text in drawn layout; the converted grammar is compared with an independent reading of the text; or a drawn notation with its own tokens, quotes, characters, escapes, order of head and tail, comments holding whole rules and bindings for it, and a text written in it, whose conversion is compared with the grammar it was written from; non-trivial: the numbering differs from the built-in one, an escape lacks a mapping, or the notation is a drawn one",
		Quick:    6000,
		Thorough: 200000,
		New:      func() any { return &CaseBind{} },
		Gen:      genBind,
		Check:    func(ci any, o *Obs) error { return checkBind(ci.(*CaseBind), o) },
	})
}
