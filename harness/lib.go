package main

// Driving the library, and comparing what it returns with the references.

import (
	"fmt"
	"reflect"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
)

type Table = map[int]map[byte][]parser.ParserOp
type Names = map[int]string

// build generates a table and a parser; err is the library's refusal.
func build(g Gram) (p parser.LL1Parser, table Table, names Names, err error) {
	return buildBNF(g.ToBNF())
}

func buildBNF(b bnf.Grammar) (p parser.LL1Parser, table Table, names Names, err error) {
	tp, np, err := tablegen.FromGrammar(b)
	if err != nil {
		return nil, nil, nil, err
	}
	if tp == nil || np == nil {
		return nil, nil, nil, fmt.Errorf("no error but nil table or names")
	}
	return parser.NewLL1Parser(*tp, *np), *tp, *np, nil
}

// parse calls Parse and checks the shape of its results: a tree and names
// without error, or an error alone.
func parse(p parser.LL1Parser, src any) (cst.Node, Names, error, error) {
	n, nm, err := p.Parse(src)
	if err != nil {
		if n != nil {
			return nil, nil, err, fmt.Errorf("error %q together with a tree", err)
		}
		if nm != nil {
			return nil, nil, err, fmt.Errorf("error %q together with a name map", err)
		}
		return nil, nil, err, nil
	}
	if n == nil || nm == nil {
		return nil, nil, nil, fmt.Errorf("no error but nil tree or name map")
	}
	return n, *nm, nil, nil
}

// checkTree is the structural derivation predicate of property C02.
func checkTree(a *Analysis, root cst.Node, in string) error {
	if root.Type() != 0 || root.Pos() != 0 || root.End() != len(in) {
		return fmt.Errorf("root is type %d [%d,%d), want type 0 [0,%d)", root.Type(), root.Pos(), root.End(), len(in))
	}
	var rec func(n cst.Node) error
	rec = func(n cst.Node) error {
		r, s, e := n.Type(), n.Pos(), n.End()
		if r < 0 || r >= len(a.g) {
			return fmt.Errorf("node type %d at [%d,%d) where a rule is expected", r, s, e)
		}
		if s < 0 || s > e || e > len(in) {
			return fmt.Errorf("rule %d: bad span [%d,%d)", r, s, e)
		}
		kids := n.Childs()
		if s == e {
			if !a.nullable[r] {
				return fmt.Errorf("rule %d at %d is empty but cannot be", r, s)
			}
			if len(kids) != 1 || kids[0].Type() != TNil || kids[0].Pos() != s || kids[0].End() != s || len(kids[0].Childs()) != 0 {
				return fmt.Errorf("empty rule %d at %d does not consist of one 'nothing' leaf: %v", r, s, kids)
			}
			return nil
		}
		if len(kids) == 0 {
			return fmt.Errorf("rule %d [%d,%d) has no children", r, s, e)
		}
		at := s
		for i, k := range kids {
			if k.Pos() != at || k.End() < at || k.End() > e {
				return fmt.Errorf("rule %d [%d,%d): child %d spans [%d,%d), want start %d", r, s, e, i, k.Pos(), k.End(), at)
			}
			at = k.End()
		}
		if at != e {
			return fmt.Errorf("rule %d [%d,%d): children end at %d", r, s, e, at)
		}
		found := false
	alts:
		for _, alt := range a.alts[r] {
			if len(alt) != len(kids) {
				continue
			}
			for i, sy := range alt {
				k := kids[i]
				if sy.nt >= 0 {
					if k.Type() != sy.nt {
						continue alts
					}
				} else if k.Type() != TLit || in[k.Pos():k.End()] != sy.text {
					continue alts
				}
			}
			found = true
			break
		}
		if !found {
			return fmt.Errorf("rule %d [%d,%d): children match no alternative: %v", r, s, e, short(kids))
		}
		for _, k := range kids {
			if k.Type() == TLit {
				if len(k.Childs()) != 0 {
					return fmt.Errorf("literal leaf at %d has children", k.Pos())
				}
				continue
			}
			if err := rec(k); err != nil {
				return err
			}
		}
		return nil
	}
	return rec(root)
}

func short(kids []cst.Node) string {
	s := ""
	for i, k := range kids {
		if i > 20 {
			s += "..."
			break
		}
		s += fmt.Sprintf("{%d %d %d}", k.Type(), k.Pos(), k.End())
	}
	return s
}

// sameTree compares with an expected tree.
func sameTree(n cst.Node, w *RT) error {
	if n.Type() != w.T || n.Pos() != w.S || n.End() != w.E || len(n.Childs()) != len(w.K) {
		return fmt.Errorf("node {%d [%d,%d) %d children}, want {%d [%d,%d) %d children}",
			n.Type(), n.Pos(), n.End(), len(n.Childs()), w.T, w.S, w.E, len(w.K))
	}
	for i, k := range n.Childs() {
		if err := sameTree(k, w.K[i]); err != nil {
			return err
		}
	}
	return nil
}

// snap copies a library tree into a plain value.
func snap(n cst.Node) *RT {
	r := &RT{T: n.Type(), S: n.Pos(), E: n.End()}
	for _, k := range n.Childs() {
		r.K = append(r.K, snap(k))
	}
	return r
}

func eqRT(a, b *RT) bool {
	if a.T != b.T || a.S != b.S || a.E != b.E || len(a.K) != len(b.K) {
		return false
	}
	for i := range a.K {
		if !eqRT(a.K[i], b.K[i]) {
			return false
		}
	}
	return true
}

func (r *RT) size() int {
	n := 1
	for _, k := range r.K {
		n += k.size()
	}
	return n
}

func (r *RT) String() string {
	if r == nil {
		return "nil"
	}
	s := fmt.Sprintf("{%d %d %d", r.T, r.S, r.E)
	for _, k := range r.K {
		s += " " + k.String()
	}
	return s + "}"
}

// opsOf is the table entry an alternative should produce.
func opsOf(alt []isym) []parser.ParserOp {
	r := []parser.ParserOp{}
	for _, s := range alt {
		if s.nt >= 0 {
			r = append(r, parser.OpNonTerminal(s.nt))
		} else {
			r = append(r, parser.OpTerminal(s.text))
		}
	}
	return r
}

func sameOps(a, b []parser.ParserOp) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !reflect.DeepEqual(a[i], b[i]) {
			return false
		}
	}
	return true
}

// selfParser is the parser for BNF text.
func selfParser() (parser.LL1Parser, error) {
	p, _, _, err := buildBNF(bnf.SelfGrammar())
	return p, err
}

var selfP parser.LL1Parser

func initSelf() error {
	p, err := selfParser()
	if err != nil {
		return nil // the checks report it case by case
	}
	selfP = p
	return nil
}

// readBNF runs text through the BNF parser and the AST builder. refused tells
// that the parser did not accept it; err is any other failure.
func readBNF(text string) (g Gram, refused error, err error) {
	if selfP == nil {
		if selfP, err = selfParser(); err != nil {
			selfP = nil
			return nil, nil, fmt.Errorf("no table for the built-in grammar: %w", err)
		}
	}
	n, _, perr, err := parse(selfP, text)
	if err != nil {
		return nil, nil, err
	}
	if perr != nil {
		return nil, perr, nil
	}
	b := fromcst.SelfCSTtoASTBindings()
	ast, err := b.ToAST(n, text)
	if err != nil {
		return nil, nil, fmt.Errorf("accepted text does not convert: %w", err)
	}
	if ast == nil {
		return nil, nil, fmt.Errorf("conversion returned neither grammar nor error")
	}
	g, err = FromBNF(*ast)
	return g, nil, err
}
