package main

// C29: table generation ends, whatever the web of references between rules.

import (
	"fmt"

	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"pgregory.net/rapid"
)

type CaseWeb struct {
	G Gram `json:"g"`
}

// genWeb draws rules in layers, each of which refers mostly to rules of the
// next layers, several times over: few rules, but as many ways through them as
// two to the number of layers.
func genWeb(t *rapid.T) *CaseWeb {
	layers := oneOf(t, 5, 12, 20, 30, 30, 40, 60)
	width := oneOf(t, 1, 1, 2, 3)
	if layers == 60 && width == 3 {
		width = 2
	}
	n := layers * width
	name := func(i int) string { return fmt.Sprintf("r%d", i) }
	lead := oneOf(t, 0, 50, 100, 100) // chance of a byte of its own in front of an alternative
	back := oneOf(t, 0, 0, 0, 10, 40) // chance that a reference goes anywhere
	far := oneOf(t, 0, 20, 100)       // chance that it skips layers
	lit := oneOf(t, 0, 20, 50)        // chance of a terminal behind a symbol
	maxRefs := oneOf(t, 2, 2, 3, 6)
	maxAlts := oneOf(t, 1, 1, 2, 4)
	last := uni(t, 3) // what the last rules derive: nothing, a byte, both
	opt := oneOf(t, 0, 0, 30, 100)
	fresh := 0
	own := func() Sym {
		fresh++
		return T(string([]byte{byte(1 + fresh%255)}))
	}
	g := make(Gram, n)
	for i := range g {
		g[i].Head = Raw(name(i))
		l := i / width
		if l == layers-1 {
			if last != 0 {
				g[i].Alts = append(g[i].Alts, []Sym{own()})
			}
			if last != 1 {
				g[i].Alts = append(g[i].Alts, []Sym{Eps})
			}
			continue
		}
		for j := rng(t, 1, maxAlts); j > 0; j-- {
			alt := []Sym{}
			if pct(t, lead) {
				alt = append(alt, own())
			}
			for k := rng(t, 1, maxRefs); k > 0; k-- {
				x := (l+1)*width + uni(t, width)
				switch {
				case pct(t, back):
					x = uni(t, n)
				case pct(t, far):
					x = rng(t, (l+1)*width, n-1)
				}
				alt = append(alt, N(name(x)))
				if pct(t, 30) { // the same one again
					alt = append(alt, N(name(x)))
				}
				if pct(t, lit) {
					alt = append(alt, own())
				}
			}
			g[i].Alts = append(g[i].Alts, alt)
		}
		if pct(t, opt) {
			g[i].Alts = append(g[i].Alts, []Sym{Eps})
		}
	}
	switch uni(t, 4) {
	case 0: // last rule first, behind the first one
		for i, j := 1, n-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	case 1:
		p := perm(t, n-1)
		h := append(Gram{}, g...)
		for i, x := range p {
			h[x+1] = g[i+1]
		}
		g = h
	}
	if pct(t, 40) {
		if h, _, ok := repair(g, []byte("abcdefgh"), false); ok {
			g = h
		}
	}
	if pct(t, 15) {
		g = plantFlaw(t, g, true)
	}
	return &CaseWeb{g}
}

// ways counts the ways from the first rule through the rules, up to a limit;
// going round counts as reaching the limit.
func (a *Analysis) ways(limit float64) float64 {
	memo := make([]float64, len(a.g)) // 0: not seen, -1: being looked at
	var f func(i int) float64
	f = func(i int) float64 {
		if memo[i] < 0 {
			return limit
		}
		if memo[i] > 0 {
			return memo[i]
		}
		memo[i] = -1
		w := 0.0
		for _, alt := range a.alts[i] {
			leaf := true
			for _, s := range alt {
				if s.nt >= 0 {
					leaf = false
					w += f(s.nt)
				}
			}
			if leaf {
				w++
			}
		}
		memo[i] = max(1, min(w, limit))
		return memo[i]
	}
	return f(0)
}

func checkWeb(c *CaseWeb, o *Obs) error {
	ctx := func(f string, v ...any) error {
		return fmt.Errorf("%s\ngrammar %v", fmt.Sprintf(f, v...), c.G)
	}
	b := c.G.ToBNF()
	table, names, err := tablegen.FromGrammar(b)
	if err != nil && (table != nil || names != nil) {
		return ctx("error %v together with a table or names", err)
	}
	if flaw := wellFormed(c.G); flaw != "" {
		o.Label("malformed")
		if err == nil {
			return ctx("not refused: %s", flaw)
		}
		return nil
	}
	a := analyze(c.G)
	w := a.ways(1 << 40)
	switch {
	case w >= 1<<40:
		o.Label("ways through the rules: 2^40 or more, or endless")
	case w >= 1<<20:
		o.Label("ways through the rules: 2^20 or more")
	}
	if w >= 1<<20 {
		o.NonTrivial()
	}
	switch {
	case a.dormant():
		o.Label("two empty alternatives that nothing follows")
	case a.ll1():
		o.Label("LL(1)")
		if err != nil {
			return ctx("refused: %v", err)
		}
		if len(*table) != len(c.G) {
			return ctx("%d rows for %d rules", len(*table), len(c.G))
		}
		return nil
	default:
		o.Label("not LL(1)")
		if err == nil {
			return ctx("not refused: rule %d", a.conf[0].rule)
		}
	}
	return nil
}

func init() {
	register(&Prop{
		ID:       "C29",
		Rule:     "a case is a grammar of 5-180 rules in layers, whose alternatives refer to rules of the following layers (or back) several times over, with and without bytes of their own in front, in any order, now and then with a flaw, or one as for C04, C03 and C06; non-trivial: well-formed, and there are at least 2^20 ways from the first rule through the others",
		Quick:    2000,
		Thorough: 20000,
		CPUSec:   15,
		New:      func() any { return &CaseWeb{} },
		Gen: func(t *rapid.T) any {
			switch weighted(t, 50, 15, 15, 10, 5, 5) {
			case 0:
				return genWeb(t)
			case 1:
				return &CaseWeb{genGram(t, GOpt{})}
			case 2:
				return &CaseWeb{genLL1(t, GOpt{})}
			case 3:
				return &CaseWeb{genConflict(t, GOpt{})}
			case 4:
				return &CaseWeb{plantFlaw(t, genGram(t, GOpt{}), true)}
			default:
				return &CaseWeb{genWide(t)}
			}
		},
		Check: func(c any, o *Obs) error { return checkWeb(c.(*CaseWeb), o) },
	})
}
