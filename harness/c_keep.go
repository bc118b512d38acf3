package main

// C30: nothing is kept between calls, so that a program may go on for ever.

import (
	"bytes"
	"errors"
	"fmt"
	"runtime"
	"strings"
	"time"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CaseKeep struct {
	G     Gram  `json:"g"`
	U     []Raw `json:"u"` // sentences of its first rule
	Long  bool  `json:"long"`
	Ops   []int `json:"ops"`
	Calls int   `json:"calls"`
}

const keepOps = 18

var keepNames = [keepOps]string{"parse a string", "parse a byte slice", "parse a buffer", "parse a reader",
	"refused input", "failing reader", "new parser and parse", "new table and parse", "refused grammar",
	"malformed grammar", "read BNF text", "refused BNF text", "walk", "byte sets", "no source",
	"print", "built-in grammar and bindings", "conversion that fails"}

type keeper struct {
	c     *CaseKeep
	g     Gram
	p     parser.LL1Parser
	table Table
	names Names
}

// input number i: units in an order of its own, about n bytes.
func (k *keeper) input(i, n int) string {
	var sb strings.Builder
	for j := 0; j < 20 || sb.Len() < n; j++ {
		sb.WriteByte(1)
		sb.WriteString(string(k.c.U[i>>(j%20)&1%len(k.c.U)]))
	}
	return sb.String()
}

// renamed gives the grammar names of call number i.
func (g Gram) numbered(i int) Gram {
	h := g.clone()
	for r := range h {
		h[r].Head = Raw(fmt.Sprintf("%s-%d", h[r].Head, i))
		for _, alt := range h[r].Alts {
			for k := range alt {
				if alt[k].K == KNon {
					alt[k].S = fmt.Sprintf("%s-%d", alt[k].S, i)
				}
			}
		}
	}
	return h
}

// call makes call number i of a kind and drops what it returns.
func (k *keeper) call(op, i, size int) error {
	ok := func(n cst.Node, _ *map[int]string, err error) (cst.Node, error) {
		if err != nil {
			return nil, fmt.Errorf("%s, call %d: %v", keepNames[op], i, err)
		}
		return n, nil
	}
	refused := func(err error) error {
		if err == nil {
			return fmt.Errorf("%s, call %d: no error", keepNames[op], i)
		}
		return nil
	}
	var err error
	switch op {
	case 0:
		_, err = ok(k.p.Parse(k.input(i, size)))
	case 1:
		_, err = ok(k.p.Parse([]byte(k.input(i, size))))
	case 2:
		_, err = ok(k.p.Parse(bytes.NewBufferString(k.input(i, size))))
	case 3:
		_, err = ok(k.p.Parse(&chunkReader{data: k.input(i, size), chunks: []int{700}}))
	case 4:
		in := k.input(i, size)
		_, _, err = k.p.Parse(in + "\x02")
		err = refused(err)
		at := i * 7 % len(in) // these two are refused as a rule
		k.p.Parse(in[:at] + string([]byte{byte(i)}) + in[at:])
		k.p.Parse(in[:at])
	case 5:
		_, _, err = k.p.Parse(&chunkReader{data: k.input(i, size), chunks: []int{700}, fail: fmt.Errorf("failure %d", i)})
		err = refused(err)
	case 6:
		nm := Names{}
		for r := range k.table {
			nm[r] = fmt.Sprintf("%s-%d", k.names[r], i)
		}
		q, in := parser.NewLL1Parser(k.table, nm), k.input(i, size)
		if _, err = ok(q.Parse(in)); err == nil {
			_, _, err = q.Parse(in + "\x03")
			err = refused(err)
			q.Parse(in[:i*7%len(in)] + "\x02")
		}
	case 7:
		tb, nm, e := tablegen.FromGrammar(k.g.numbered(i).ToBNF())
		if e != nil {
			return fmt.Errorf("%s, call %d: %v", keepNames[op], i, e)
		}
		q := parser.NewLL1Parser(*tb, *nm)
		if _, err = ok(q.Parse(k.input(i, 1))); err == nil {
			_, _, err = q.Parse(k.input(i, 1) + "\x02")
			err = refused(err)
		}
	case 8:
		h := k.g.numbered(i)
		h[0].Alts = append(h[0].Alts, h[0].Alts[0])
		_, _, err = tablegen.FromGrammar(h.ToBNF())
		err = refused(err)
	case 9:
		h := k.g.numbered(i)
		h[0].Alts = append(h[0].Alts, []Sym{N(fmt.Sprint("missing-", i))})
		_, _, err = tablegen.FromGrammar(h.ToBNF())
		err = refused(err)
	case 10, 17:
		text := fmt.Sprintf("<a%d> ::= ", i) + strings.Repeat(fmt.Sprintf("<b-%d> '\\n%d' ", i, i), 1+size/20)
		n, e := ok(selfP.Parse(text))
		if e != nil {
			return e
		}
		b := fromcst.SelfCSTtoASTBindings()
		if op == 17 {
			delete(b.EscapeMapping, "n")
			_, err = b.ToAST(n, text)
			err = refused(err)
			break
		}
		g, e := b.ToAST(n, text)
		if e != nil {
			return e
		}
		if len(g.Rules) != 1 {
			return fmt.Errorf("%d rules instead of one", len(g.Rules))
		}
	case 11:
		_, _, err = selfP.Parse(fmt.Sprintf("<a> ::= \"%d\" ", i) + strings.Repeat("| '' ", size/5) + "'")
		err = refused(err)
	case 12:
		n, e := ok(k.p.Parse(k.input(i, size)))
		if e != nil {
			return e
		}
		c := 0
		cst.Walk(visitFunc(func() { c++ }), n)
	case 13:
		a, b := byteset.New(byte(i), byte(i>>8)), byteset.New(byte(i>>4))
		b = a.Union(b)
		_, _ = b.String(), b.Bytes()
	case 14:
		_, _, err = k.p.Parse(errors.New(k.input(i, size)))
		err = refused(err)
	case 15:
		_ = bnf.SymbolTerminal{Name: k.input(i, size)}.String()
		_ = k.g.numbered(i).ToBNF().String()
	case 16:
		g := bnf.SelfGrammar()
		g.Rules[0].Head.Name = fmt.Sprint("s", i)
		b := fromcst.SelfCSTtoASTBindings()
		b.EscapeMapping["x"] = fmt.Sprint(i)
	}
	return err
}

// live is what is in use when everything dropped has been collected.
func live() (heap, goroutines int) {
	for i := 0; i < 3; i++ {
		runtime.GC()
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int(m.HeapAlloc), runtime.NumGoroutine()
}

func checkKeep(c *CaseKeep, o *Obs) error {
	ctx := func(f string, v ...any) error {
		var ops []string
		for _, op := range c.Ops {
			ops = append(ops, keepNames[op])
		}
		return fmt.Errorf("%s\ncalls: %s\ngrammar %v", fmt.Sprintf(f, v...), strings.Join(ops, ", "), c.G)
	}
	if selfP == nil {
		return fmt.Errorf("no table for the built-in grammar")
	}
	k := &keeper{c: c, g: costGram(c.G, false)}
	var err error
	if k.p, k.table, k.names, err = build(k.g); err != nil {
		o.Label("refused by the library")
		return nil // C04's business
	}
	size := 1
	if c.Long {
		size = 3000
	}
	i := 0
	round := func(n int) error {
		for ; n > 0; n-- {
			for _, op := range c.Ops {
				if err := k.call(op, i, size); err != nil {
					return ctx("%v", err)
				}
			}
			i++
		}
		return nil
	}
	if err := round(10); err != nil {
		if _, _, perr := k.p.Parse(k.input(0, 1)); perr != nil {
			o.Label("refused by the library") // C01's business
			return nil
		}
		return err
	}
	most := 128 << 10
	if c.Long {
		most = 192 << 10
	}
	why := ""
	for try := 0; try < 3; try++ { // what grows, grows every time
		h0, g0 := live()
		if err := round(c.Calls); err != nil {
			return err
		}
		h1, g1 := live()
		for w := 0; w < 20 && g1 > g0+3; w++ { // they may be about to end
			time.Sleep(10 * time.Millisecond)
			h1, g1 = live()
		}
		switch {
		case h1-h0 > most:
			why = fmt.Sprintf("%d more calls of each kind, and %d more bytes are in use", c.Calls, h1-h0)
		case g1 > g0+3:
			why = fmt.Sprintf("%d more calls of each kind, and %d more goroutines are running", c.Calls, g1-g0)
		default:
			why = ""
		}
		if why == "" {
			break
		}
	}
	if why != "" {
		return ctx("%s", why)
	}
	for _, op := range c.Ops {
		o.Label("%s", keepNames[op])
	}
	o.NonTrivial()
	return nil
}

func init() {
	register(&Prop{
		ID:       "C30",
		Rule:     "a case is a grammar, two sentences that inputs are made of, one to four of eighteen kinds of call, and either 4000 rounds of short or 300 rounds of long (3000 bytes) calls, each with an input, names or grammar of its own; what is in use after garbage collection is compared before and after; non-trivial: all rounds were made",
		Quick:    16,
		Thorough: 400,
		CPUSec:   120,
		Init:     initSelf,
		New:      func() any { return &CaseKeep{} },
		Gen: func(t *rapid.T) any {
			c := &CaseKeep{Long: pct(t, 50), Calls: 4000}
			if c.Long {
				c.Calls = 300
			}
			for _, i := range perm(t, keepOps)[:rng(t, 1, 4)] {
				c.Ops = append(c.Ops, i)
			}
			for try := 0; ; try++ {
				g := genLL1(t, GOpt{Small: true, Prod: true, BNF: true})
				if try > 4 {
					g = simple.clone()
				}
				a := analyze(costGram(g, false))
				if a.ll1() && a.prod[1] {
					c.G = g
					a = analyze(g)
					for n := 0; n < 2; n++ {
						s := genSentence(t, a, oneOf(t, 3, 5, 10, 30))
						if len(s) > 300 {
							s = string(c.G[0].Head[:0])
							if !a.nullable[0] {
								s = genSentence(t, a, 1)
							}
						}
						c.U = append(c.U, Raw(s))
					}
					return c
				}
			}
		},
		Check:  func(ci any, o *Obs) error { return checkKeep(ci.(*CaseKeep), o) },
		Assume: []string{"more than 128 KB (short calls) or 192 KB (long ones) of additional live heap after thousands (hundreds) of calls, three times in a row, counts as growth"},
	})
}
