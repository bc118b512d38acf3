package main

// C22: size.

import (
	"bytes"
	"fmt"
	"io"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"pgregory.net/rapid"
)

type CaseBig struct {
	Kind string `json:"kind"`
	N    int    `json:"n"`
	M    int    `json:"m"`
	Rev  bool   `json:"rev,omitempty"` // rules in the opposite order (the first stays)
	Edit string `json:"edit,omitempty"`
	At   int    `json:"at,omitempty"`
	Src  int    `json:"src,omitempty"`
}

func bigLit(n, m int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + (i*7+i/251+m)%26)
	}
	return string(b)
}

// lcg is a fixed pseudo-random sequence, part of the case.
func lcg(x *uint32) int {
	*x = *x*1664525 + 1013904223
	return int(*x >> 10)
}

// make builds the grammar and the unedited sentence.
func (c *CaseBig) make() (Gram, string) {
	n, m := c.N, c.M
	seed := uint32(m*7919 + 17)
	var sb strings.Builder
	rn := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
	switch c.Kind {
	case "list":
		items := []string{"a", "bc", ",", "d-e-f"}
		g := Gram{{"S", [][]Sym{{N("I"), N("S")}, {Eps}}}, {"I", [][]Sym{{T("a")}, {T("bc")}, {T(",")}, {T("d"), N("J"), T("f")}}}, {"J", [][]Sym{{T("-e-")}}}}
		for i := 0; i < n; i++ {
			sb.WriteString(items[lcg(&seed)%(1+m%4)])
		}
		return g, sb.String()
	case "sep":
		g := Gram{{"S", [][]Sym{{T("x"), N("T")}}}, {"T", [][]Sym{{Eps}, {T(";"), N("O"), T("x"), N("T")}}}, {"O", [][]Sym{{Eps}, {T("+")}}}}
		sb.WriteString("x")
		for i := 1; i < n; i++ {
			sb.WriteString(";")
			if lcg(&seed)%3 < m%3 {
				sb.WriteString("+")
			}
			sb.WriteString("x")
		}
		return g, sb.String()
	case "nest":
		g := Gram{{"S", [][]Sym{{T("("), N("S"), T(")")}, {Eps}}}}
		return g, strings.Repeat("(", n) + strings.Repeat(")", n)
	case "nest2":
		g := Gram{{"V", [][]Sym{{T("["), N("L"), T("]")}, {T("{"), N("V"), T("}")}, {T("x")}}},
			{"L", [][]Sym{{Eps}, {N("V"), N("M")}}}, {"M", [][]Sym{{Eps}, {T(","), N("V"), N("M")}}}}
		var end []byte
		for i := 0; i < n; i++ {
			if lcg(&seed)%2 == 0 {
				for k := lcg(&seed) % (1 + m%4); k >= 0; k-- {
					if k == 0 {
						sb.WriteString("[")
					} else {
						sb.WriteString("[x,")
						end = append(end, ']')
					}
				}
				end = append(end, ']')
			} else {
				sb.WriteString("{")
				end = append(end, '}')
			}
		}
		sb.WriteString("x")
		for i := len(end) - 1; i >= 0; i-- {
			sb.WriteByte(end[i])
		}
		return g, sb.String()
	case "chain": // long chains of rules
		g := Gram{}
		for i := 0; i < n; i++ {
			var alts [][]Sym
			switch m % 4 {
			case 0:
				alts = [][]Sym{{N(rn("r", i+1))}}
			case 1:
				alts = [][]Sym{{N("o"), T("k"), N(rn("r", i+1)), N("p")}}
			case 2:
				alts = [][]Sym{{Eps}, {T("ab"), N(rn("r", i+1))}}
			case 3: // empty in every step
				alts = [][]Sym{{T("q")}, {N(rn("r", i+1)), N("p")}}
				if i > 0 {
					alts = alts[1:]
				}
			}
			g = append(g, Rule{Raw(rn("r", i)), alts})
		}
		switch m % 4 {
		case 0:
			g = append(g, Rule{Raw(rn("r", n)), [][]Sym{{T("x")}}})
			return g, "x"
		case 1:
			g = append(g, Rule{Raw(rn("r", n)), [][]Sym{{T("x")}}}, Rule{"o", [][]Sym{{Eps}, {T("o")}}}, Rule{"p", [][]Sym{{T("p")}}})
			for i := 0; i < n; i++ {
				if lcg(&seed)%2 == 0 {
					sb.WriteString("o")
				}
				sb.WriteString("k")
			}
			return g, sb.String() + "x" + strings.Repeat("p", n)
		case 2:
			g = append(g, Rule{Raw(rn("r", n)), [][]Sym{{Eps}, {T("x")}}})
			if k := m / 4 % 3; k > 0 {
				return g, strings.Repeat("ab", n*k/2) + strings.Repeat("x", k/2)
			}
			return g, strings.Repeat("ab", n)
		default:
			g = append(g, Rule{Raw(rn("r", n)), [][]Sym{{Eps}, {T("x")}}}, Rule{"p", [][]Sym{{Eps}}})
			return g, strings.Repeat("x", m/4%2)
		}
	case "rules": // N leaf rules reached by two bytes
		g := Gram{{"S", [][]Sym{{N("item"), N("S")}, {Eps}}}, {"item", nil}}
		w := 1
		for w*w < n {
			w++
		}
		sel := func(i int) string { return string([]byte{byte('0' + i)}) }
		for i := 0; i < w; i++ {
			g[1].Alts = append(g[1].Alts, []Sym{T(sel(i)), N(rn("g", i))})
			r := Rule{Raw(rn("g", i)), nil}
			for j := 0; j < w && i*w+j < n; j++ {
				r.Alts = append(r.Alts, []Sym{T(sel(j)), N(rn("leaf", i*w+j))})
			}
			if len(r.Alts) == 0 {
				r.Alts = [][]Sym{{T("none")}}
			}
			g = append(g, r)
		}
		for i := 0; i < n; i++ {
			g = append(g, Rule{Raw(rn("leaf", i)), [][]Sym{{T(rn("#", i))}, {Eps}}})
		}
		for k := 0; k < 400; k++ {
			i := lcg(&seed) % n
			if k%3 == 0 {
				i = n - 1 - k%min(n, 7)
			}
			sb.WriteString(sel(i/w) + sel(i%w))
			if lcg(&seed)%2 == 0 {
				sb.WriteString(rn("#", i))
			}
		}
		return g, sb.String()
	case "alts": // an alternative per byte
		r := Rule{"I", nil}
		for b := 1; b < 256; b++ {
			alt := []Sym{T(string([]byte{byte(b)}))}
			if (b+m)%5 == 0 {
				alt = append(alt, N("J"))
			}
			r.Alts = append(r.Alts, alt)
		}
		g := Gram{{"S", [][]Sym{{N("I"), N("S")}, {Eps}}}, r, {"J", [][]Sym{{T("!")}}}}
		for i := 0; i < n; i++ {
			b := 1 + lcg(&seed)%255
			sb.WriteByte(byte(b))
			if (b+m)%5 == 0 {
				sb.WriteByte('!')
			}
		}
		return g, sb.String()
	case "seq": // one long alternative
		alt := []Sym{}
		for i := 0; i < n; i++ {
			switch i % 3 {
			case 0:
				alt = append(alt, T("a"))
				sb.WriteString("a")
			case 1:
				alt = append(alt, N("A"))
				if lcg(&seed)%3 < m%3 {
					sb.WriteString("b")
				}
			default:
				alt = append(alt, N("B"))
				sb.WriteString("cd")
			}
		}
		return Gram{{"S", [][]Sym{alt, {T("z")}}}, {"A", [][]Sym{{T("b")}, {Eps}}}, {"B", [][]Sym{{T("c"), T("d")}}}}, sb.String()
	case "opt": // a row of optional rules, each with its own byte
		n = min(n, 200)
		alt := []Sym{}
		g := Gram{{"S", nil}}
		for i := 0; i < n; i++ {
			alt = append(alt, N(rn("o", i)))
			l := string([]byte{byte(33 + i)})
			g = append(g, Rule{Raw(rn("o", i)), [][]Sym{{T(l)}, {Eps}}})
			if lcg(&seed)%4 < m%5 {
				sb.WriteString(l)
			}
		}
		g[0].Alts = [][]Sym{alt}
		return g, sb.String()
	default: // "long": long terminals
		l := bigLit(n, m)
		g := Gram{{"S", [][]Sym{{T("k"), N("L"), T("z"), N("S")}, {Eps}}}, {"L", [][]Sym{{T(l)}, {T("0" + l)}}}}
		return g, "k" + l + "z" + "k0" + l + "z"
	}
}

var bigKinds = []string{"list", "sep", "nest", "nest2", "chain", "rules", "alts", "seq", "opt", "long", "text"}

func (c *CaseBig) edit(s string) string {
	if c.Edit == "" {
		return s
	}
	at := c.At
	if at < 0 || at > len(s) {
		at = len(s)
	}
	switch c.Edit {
	case "cut":
		return s[:at]
	case "drop":
		if at < len(s) {
			return s[:at] + s[at+1:]
		}
		return s[:max(len(s)-1, 0)]
	case "byte", "case", "high":
		if at >= len(s) {
			at = len(s) - 1
		}
		if at < 0 {
			return "~"
		}
		b := []byte(s)
		b[at] ^= map[string]byte{"byte": 1, "case": 32, "high": 128}[c.Edit]
		return string(b)
	case "swap":
		b := []byte(s)
		if len(b) >= 2 {
			at = min(at, len(b)-2)
			b[at], b[at+1] = b[at+1], b[at]
		}
		return string(b)
	case "nul":
		return s[:at] + "\x00" + s[at:]
	case "dup":
		if at < len(s) {
			return s[:at] + s[at:at+1] + s[at:]
		}
		return s + "x"
	}
	panic("edit " + c.Edit)
}

type sizeVisitor struct{ n, last, bad int }

func (v *sizeVisitor) Visit(n cst.Node) cst.Visitor {
	v.n++
	if n.Pos() < v.last && len(n.Childs()) == 0 {
		v.bad++
	}
	if len(n.Childs()) == 0 {
		v.last = n.End()
	}
	return v
}

func checkBig(c *CaseBig, o *Obs) error {
	o.Label("kind %s", c.Kind)
	if c.Kind == "text" {
		return checkBigText(c, o)
	}
	g, in := c.make()
	if c.Rev {
		for i, j := 1, len(g)-1; i < j; i, j = i+1, j-1 {
			g[i], g[j] = g[j], g[i]
		}
	}
	in = c.edit(in)
	a := analyze(g)
	if w := wellFormed(g); w != "" || !a.ll1() {
		return bug("%+v: %s, conflicts %v", c, w, a.conf)
	}
	p, _, _, err := build(g)
	if err != nil {
		return fmt.Errorf("no table: %v", err)
	}
	var src any = in
	switch c.Src {
	case 1:
		src = []byte(in)
	case 2:
		src = bytes.NewBufferString(in)
	case 3:
		src = io.Reader(strings.NewReader(in))
	}
	n, _, perr, err := parse(p, src)
	if err != nil {
		return err
	}
	want, werr := refParse(a, in)
	if len(in) >= 2000 || len(g) >= 100 {
		o.NonTrivial()
	}
	if werr != nil {
		o.Label("refused")
		if perr == nil {
			return fmt.Errorf("input of %d bytes accepted, expected: %v", len(in), werr)
		}
		return nil
	}
	o.Label("accepted")
	if perr != nil {
		return fmt.Errorf("sentence of %d bytes refused: %v", len(in), clip(perr.Error(), 300))
	}
	if err := sameTree(n, want); err != nil {
		return fmt.Errorf("sentence of %d bytes: %v", len(in), err)
	}
	v := &sizeVisitor{}
	cst.Walk(v, n)
	if v.n != want.size() || v.bad != 0 {
		return fmt.Errorf("walking visits %d nodes of %d, %d out of order", v.n, want.size(), v.bad)
	}
	if s := want.size(); s > 100000 {
		o.Label("tree over 100000 nodes")
	}
	return nil
}

// checkBigText prints and reads back a large grammar.
func checkBigText(c *CaseBig, o *Obs) error {
	var g Gram
	n := c.N
	switch c.M % 6 {
	case 0, 1:
		d := CaseBig{Kind: "rules", N: max(n/20, 1), M: c.M}
		g, _ = d.make()
	case 2: // many alternatives
		r := Rule{"a", nil}
		for i := 0; i < max(n/4, 1); i++ {
			r.Alts = append(r.Alts, []Sym{T(fmt.Sprint(i))})
		}
		g = Gram{r}
	case 3: // many symbols
		alt := []Sym{}
		for i := 0; i < max(n/4, 1); i++ {
			alt = append(alt, T(string([]byte{byte(32 + i%95)})), N("a"))
		}
		g = Gram{{"a", [][]Sym{alt}}}
	case 4: // a long terminal with all characters
		b := make([]byte, max(n, 1))
		cs := bnfChars()
		for i := range b {
			b[i] = cs[(i*31+i/97)%len(cs)]
		}
		s := strings.ReplaceAll(string(b), "'", "`")
		g = Gram{{"a", [][]Sym{{T(s), T(strings.ReplaceAll(s, "\"", "'"))}}}}
	case 5: // long names
		l := "n" + bigLit(n, 3)
		g = Gram{{"a", [][]Sym{{N(l)}, {N(l + "-")}}}, {Raw(l), [][]Sym{{Eps}}}, {Raw(l + "-"), [][]Sym{{T("x")}}}}
	}
	text := g.ToBNF().String()
	switch c.Edit {
	case "dup": // many blank lines
		text = strings.Replace(text, "\n", strings.Repeat("\n", n/10+1), 1) + strings.Repeat("\r\n", n/4)
	case "swap":
		text = strings.Repeat(" ", n/4) + strings.ReplaceAll(text, "\n", "\r\n")
	}
	want, ok, _ := refBNF(text, stdEscapes)
	if !ok || !want.equal(g) {
		return fmt.Errorf("a grammar of %d rules prints as text that reads as another: %s", len(g), clip(text, 300))
	}
	got, refused, err := readBNF(text)
	if err != nil {
		return err
	}
	if refused != nil {
		return fmt.Errorf("text of %d bytes refused: %v", len(text), refused)
	}
	if !got.equal(g) {
		return fmt.Errorf("text of %d bytes reads as another grammar", len(text))
	}
	if len(text) > 2000 {
		o.NonTrivial()
	}
	return nil
}

// limit keeps a kind within what its grammar size allows.
func (c *CaseBig) limit() *CaseBig {
	m := 300000
	switch c.Kind {
	case "nest", "nest2":
		m = 100000
	case "chain":
		m = 600
		if c.Rev || c.M%4 == 3 {
			m = 300
		}
	case "rules":
		m = 700
	case "opt":
		m = 200
	case "text":
		m = 60000
		if c.Edit != "" {
			m = 10000
		}
		if c.M%6 == 5 {
			m = 20000
		}
	case "seq":
		m = 70000
	}
	c.N = min(c.N, m)
	return c
}

func genBig(t *rapid.T) any {
	c := &CaseBig{Kind: bigKinds[uni(t, len(bigKinds))], M: uni(t, 24), Rev: pct(t, 30), Src: weighted(t, 70, 10, 10, 10)}
	c.N = oneOf(t, 1, 2, 17, 100, 128, 255, 256, 257, 500, 600, 1023, 1025, 3000, 4096, 5000, 10000, 20000)
	if pct(t, 12) {
		c.N = oneOf(t, 30000, 32767, 32769, 50000, 65534, 65535, 65536, 65537, 80000, 100000)
	}
	if pct(t, 60) {
		c.Edit = oneOf(t, "cut", "drop", "byte", "case", "high", "swap", "nul", "dup")
		c.At = oneOf(t, -1, 0, 1, 255, 256, 4095, 4096, 65535, 65536, c.N, c.N-1, c.N+1, 2*c.N-1, 2*c.N, c.N/2, uni(t, 8)*c.N/3)
		if c.N >= 30000 && pct(t, 60) {
			c.At = oneOf(t, 32767, 32768, 65534, 65535, 65536, 65537)
		}
	}
	return c.limit()
}

func init() {
	register(&Prop{
		ID:       "C22",
		Rule:     "a case names a family (lists, separated lists, two kinds of nesting, chains of up to 600 rules, up to 700 rules, 255 alternatives, sequences of up to 70000 symbols, rows of 200 optional rules, terminals of up to 300000 bytes, long BNF texts), a size often next to a power of two, and possibly an edit at a chosen place; verdict, tree and walk are compared with the reference; non-trivial: at least 2000 bytes of input or 100 rules",
		Quick:    220,
		Thorough: 6000,
		HeapMB:   4000,
		CPUSec:   100,
		New:      func() any { return &CaseBig{} },
		Gen:      genBig,
		Check:    func(ci any, o *Obs) error { return checkBig(ci.(*CaseBig), o) },
		EnumDesc: "a list of 1048585 items from four kinds of source; every family at its largest size and at 65535-65537 where that is allowed, unedited, cut by one, and with the last byte changed; bytes changed next to powers of two",
		Enum: func(tier string, k, n int, yield func(any) bool) {
			i := 0
			for src := 0; src < 4; src++ {
				if i++; i%n == k && !yield(&CaseBig{Kind: "list", N: 1<<20 + 9, Src: src}) {
					return
				}
			}
			for _, at := range []int{128, 256, 1024, 4096, 32768, 65536} {
				for d := -2; d <= 1; d++ {
					for _, kind := range []string{"list", "long", "seq"} {
						c := (&CaseBig{Kind: kind, N: 70000, M: 3, Edit: "byte", At: at + d}).limit()
						if i++; i%n == k && !yield(c) {
							return
						}
					}
				}
			}
			for _, size := range []int{300000, 65537, 65536, 65535, 257, 256, 255} {
				for _, kind := range bigKinds {
					ms := []int{1, 2}
					if kind == "chain" || kind == "text" {
						ms = []int{0, 1, 2, 3, 4, 5}
					}
					for _, m := range ms {
						for _, e := range []string{"", "cut", "byte"} {
							if e != "" && (kind == "text" || size > 257 && tier == "quick" && size != 65536) {
								continue
							}
							c := (&CaseBig{Kind: kind, N: size, M: m, Edit: e, At: -1}).limit()
							if e == "cut" {
								c.Edit, c.At = "drop", -1
							}
							if size > 1000 && c.N < 20000 && size != 65537 {
								continue // the limit is below: once is enough
							}
							if i++; i%n == k && !yield(c) {
								return
							}
						}
					}
				}
			}
		},
	})
}
