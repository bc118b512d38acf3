package main

// C25: cost grows in proportion to the input.

import (
	"bytes"
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"testing/iotest"
	"unsafe"

	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type CaseCost struct {
	G    Gram   `json:"g,omitempty"` // the last rule derives one unit; for texts, empty
	Unit Raw    `json:"unit"`
	Nest bool   `json:"nest,omitempty"` // units within units, not one after another
	Bad  bool   `json:"bad,omitempty"`  // an input refused at its end
	Junk Raw    `json:"junk,omitempty"` // ... and this follows, as long again
	Text string `json:"text,omitempty"` // kind of BNF text
	Src  int    `json:"src"`
}

const (
	costBase  = 20000 // nodes of the small tree
	costTimes = 64    // how much larger the large input is
	costFloor = 0.6   // seconds below which nothing is judged
)

// threadCPU is the CPU time of the calling thread.
func threadCPU() float64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 3, uintptr(unsafe.Pointer(&ts)), 0) // CLOCK_THREAD_CPUTIME_ID
	return float64(ts.Sec) + float64(ts.Nsec)/1e9
}

func costOf(f func() error) (sec float64, alloc uint64, err error) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	t := threadCPU()
	err = f()
	sec = threadCPU() - t
	runtime.ReadMemStats(&b)
	return sec, b.TotalAlloc - a.TotalAlloc, err
}

// input repeats the unit.
func (c *CaseCost) input(n int) string {
	u := string(c.Unit)
	switch {
	case c.Text != "":
		var s string
		switch c.Text {
		case "rules":
			s = "<a> ::= <b>" + strings.Repeat("\n<a> ::= "+u+" \"x\"", n)
		case "blank lines":
			s = "<a> ::= <b>" + strings.Repeat(u+"\n", n) + "<a> ::= 'b'"
		case "alternatives":
			s = "<a> ::= <b>" + strings.Repeat(" | "+u+" <b>", n)
		case "symbols":
			s = "<a> ::= <b>" + strings.Repeat(" "+u+" 'c'", n)
		case "literal":
			s = "<a> ::= \"" + strings.Repeat("e\\n"+strings.Trim(u, "\"'<>"), n) + "\""
		case "name":
			s = "<a" + strings.Repeat("b-0", n) + "> ::= 'c'"
		default:
			s = "<a> ::= " + strings.Repeat(" ", n*4) + "'c'"
		}
		if c.Bad {
			s += "\x00" + strings.Repeat(string(c.Junk), n)
		}
		return s
	case c.Nest:
		s := strings.Repeat("\x01", n) + u + strings.Repeat("\x02", n)
		if c.Bad {
			s = s[:len(s)-1] + strings.Repeat(string(c.Junk), n)
		}
		return s
	default:
		s := strings.Repeat("\x01"+u, n)
		if c.Bad {
			s += "\x02" + strings.Repeat(string(c.Junk), 4*n)
		}
		return s
	}
}

func costGram(g Gram, nest bool) Gram {
	if nest {
		return append(Gram{{"pump", [][]Sym{{T("\x01"), N("pump"), T("\x02")}, {N(string(g[0].Head))}}}}, g.clone()...)
	}
	return append(Gram{{"pump", [][]Sym{{T("\x01"), N(string(g[0].Head)), N("pump")}, {Eps}}}}, g.clone()...)
}

type costs struct {
	parse, walk, conv float64 // CPU seconds
	alloc             uint64
}

func (a costs) judge(b costs, times int) string {
	most := float64(times * 5)
	for _, x := range []struct {
		what string
		a, b float64
	}{{"parsing", a.parse, b.parse}, {"walking the tree", a.walk, b.walk}, {"conversion and printing", a.conv, b.conv}} {
		if x.b > costFloor && x.b > most*max(x.a, 1e-4) {
			return fmt.Sprintf("%s takes %.5f s, for an input %d times as large %.3f s", x.what, x.a, times, x.b)
		}
	}
	if b.alloc > 64<<20 && float64(b.alloc) > most*float64(a.alloc) {
		return fmt.Sprintf("parsing allocates %d bytes, for an input %d times as large %d", a.alloc, times, b.alloc)
	}
	return ""
}

func (c *CaseCost) measure(p parser.LL1Parser, src func(string) any, n int, small bool) (k costs, err error) {
	in := c.input(n)
	reps := 1
	if small {
		reps = 3 // the best of three
	}
	k.parse, k.walk, k.conv = 1e9, 1e9, 1e9
	for ; reps > 0; reps-- {
		s := src(in)
		var tree cst.Node
		var perr error
		t, a, err := costOf(func() (err error) { tree, _, perr, err = parse(p, s); return err })
		if err != nil {
			return k, err
		}
		if (perr != nil) != c.Bad {
			return k, fmt.Errorf("%d repetitions of %q: %v", n, c.Unit, perr)
		}
		k.parse, k.alloc = min(k.parse, t), a
		if c.Bad {
			k.walk, k.conv = 0, 0
			continue
		}
		nodes := 0
		t, _, _ = costOf(func() error { cst.Walk(visitFunc(func() { nodes++ }), tree); return nil })
		k.walk = min(k.walk, t)
		if c.Text == "" {
			k.conv = 0
			continue
		}
		b := fromcst.SelfCSTtoASTBindings()
		t, _, err = costOf(func() error {
			g, err := b.ToAST(tree, in)
			if err == nil {
				_ = g.String()
			}
			return err
		})
		if err != nil {
			return k, fmt.Errorf("conversion: %v", err)
		}
		k.conv = min(k.conv, t)
	}
	return k, nil
}

func checkCost(c *CaseCost, o *Obs) error {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var p parser.LL1Parser
	if c.Text != "" {
		if selfP == nil {
			return fmt.Errorf("no table for the built-in grammar")
		}
		p = selfP
	} else {
		var err error
		if p, _, _, err = build(costGram(c.G, c.Nest)); err != nil {
			o.Label("refused by the library")
			return nil // C04's business
		}
	}
	src := func(s string) any {
		switch c.Src % 5 {
		case 1:
			return []byte(s)
		case 2:
			return bytes.NewBufferString(s)
		case 3:
			return iotest.OneByteReader(strings.NewReader(s))
		case 4:
			return strings.NewReader(s)
		}
		return s
	}
	// how many nodes does a unit take
	probe := *c
	probe.Bad = false
	n, _, perr, err := parse(p, probe.input(8))
	if err != nil || perr != nil {
		o.Label("refused by the library")
		return err
	}
	nodes := 0
	cst.Walk(visitFunc(func() { nodes++ }), n)
	small := costBase * 8 / nodes
	if small < 1 {
		small = 1
	}
	// each size is judged against the smallest before the next is tried
	for try := 0; ; try++ {
		slow := ""
		var first costs
		for i, times := range []int{1, 8, costTimes} {
			k, err := c.measure(p, src, small*times, i == 0)
			if err != nil {
				return err
			}
			if i == 0 {
				first = k
				continue
			}
			if slow = first.judge(k, times); slow != "" {
				break
			}
			if times == costTimes {
				o.Label("time for %d times the input: %d-fold or more", costTimes, int(k.parse/first.parse/50)*50)
			}
		}
		if slow == "" {
			break
		}
		if try == 2 {
			return fmt.Errorf("%d repetitions of %q: %s", small, c.Unit, slow)
		}
	}
	o.NonTrivial()
	if c.Bad {
		o.Label("refused at its end")
	}
	if c.Text != "" {
		o.Label("text: %s", c.Text)
	} else if c.Nest {
		o.Label("nested")
	} else {
		o.Label("repeated")
	}
	return nil
}

type visitFunc func()

func (f visitFunc) Visit(cst.Node) cst.Visitor { f(); return f }

func init() {
	register(&Prop{
		ID:       "C25",
		Rule:     "a case is an LL(1) grammar and a sentence of it repeated, or nested in itself, n, 8n and 64n times (up to 1.3 million nodes), or a BNF text with as many rules, blank lines, alternatives, symbols, characters in a literal or a name, or spaces, sometimes refused at its end or before a long run of some byte, from five kinds of source; CPU time and allocated bytes of parsing, walking, converting and printing are compared; non-trivial: all three sizes were measured",
		Quick:    20,
		Thorough: 200,
		HeapMB:   3000,
		CPUSec:   90,
		Init:     initSelf,
		New:      func() any { return &CaseCost{} },
		Gen: func(t *rapid.T) any {
			c := &CaseCost{Src: uni(t, 5), Bad: pct(t, 25)}
			if c.Bad && pct(t, 60) {
				c.Junk = oneOf(t, Raw("\x00"), " ", "\n", "\r\n", "\t", "\xff", "\x1a")
			}
			if pct(t, 40) {
				c.Text = oneOf(t, "rules", "blank lines", "alternatives", "symbols", "literal", "name", "spaces")
				c.Unit = Raw(oneOf(t, "<b>", "'abc'", "\"\"", "\"\\\\\\n\"", "'b' <c>"))
				if c.Text == "blank lines" {
					c.Unit = oneOf(t, Raw("\n"), "\r\n", "\n   ")
				}
				return c
			}
			c.Nest = pct(t, 40)
			for try := 0; ; try++ {
				g := genLL1(t, GOpt{Small: true, Prod: true})
				if try > 4 {
					g = simple.clone()
				}
				a := analyze(costGram(g, c.Nest))
				if a.ll1() && a.prod[1] {
					c.G = g
					c.Unit = Raw(genSentence(t, analyze(g), oneOf(t, 3, 10, 30, 100)))
					return c
				}
			}
		},
		Check:  func(ci any, o *Obs) error { return checkCost(ci.(*CaseCost), o) },
		Assume: []string{"cost is judged by thread CPU time and allocated bytes for inputs in the ratio 1:8:64; more than five times the proportional cost, and more than 0.6 seconds or 64 MB, in three attempts counts as more than proportional"},
	})
}
