package main

// C19: tables written by hand, against a literal interpreter.

import (
	"bytes"
	"fmt"
	"io"
	"sort"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

type TOp struct {
	S Raw  `json:"s,omitempty"` // terminal if not empty
	N int  `json:"n,omitempty"`
	Z bool `json:"z,omitempty"` // terminal with empty text
}

type TEntry struct {
	B int   `json:"b"`
	O []TOp `json:"o"`
}

type TRow struct {
	K int      `json:"k"`
	E []TEntry `json:"e"`
}

type CaseTab struct {
	Rows []TRow `json:"rows"`
	Nil  bool   `json:"nil,omitempty"` // no table at all
	Big  bool   `json:"big,omitempty"` // long inputs: more steps are allowed
	In   []Raw  `json:"in"`
}

func (c *CaseTab) row(k int) (map[int][]TOp, bool) {
	for _, r := range c.Rows {
		if r.K == k {
			m := map[int][]TOp{}
			for _, e := range r.E {
				m[e.B] = e.O
			}
			return m, true
		}
	}
	return nil, false
}

func (c *CaseTab) table() Table {
	if c.Nil {
		return nil
	}
	t := Table{}
	for _, r := range c.Rows {
		m := map[byte][]parser.ParserOp{}
		for _, e := range r.E {
			var ops []parser.ParserOp
			for _, o := range e.O {
				if o.S != "" || o.Z {
					ops = append(ops, parser.OpTerminal(string(o.S)))
				} else {
					ops = append(ops, parser.OpNonTerminal(o.N))
				}
			}
			switch (r.K%3 + e.B) % 3 { // otherwise nil if empty
			case 1:
				own := parser.NewParserOpList(ops...)
				for i := range ops { // a list of its own
					ops[i] = parser.OpTerminal("changed")
				}
				ops = own
			case 2:
				ops = append([]parser.ParserOp{}, ops...)
			}
			m[byte(e.B)] = ops
		}
		t[r.K] = m
	}
	return t
}

const (
	tEOL   = -2
	budget = 4000
)

type tabRun struct {
	rows  map[int]map[int][]TOp
	in    string
	pos   int
	steps int
	tmo   bool
	big   bool
}

// nt follows the table literally; nil without tmo means an error.
func (r *tabRun) nt(k, depth int) *RT {
	r.steps++
	if !r.big && (r.steps > budget || depth > 1500) || r.steps > 500*budget || depth > 200000 {
		r.tmo = true
		return nil
	}
	if k == tEOL {
		st := r.pos
		switch {
		case strings.HasPrefix(r.in[r.pos:], "\n"):
			r.pos++
		case strings.HasPrefix(r.in[r.pos:], "\r\n"):
			r.pos += 2
		default:
			return nil
		}
		n := &RT{T: tEOL, S: st, E: r.pos}
		for i := st; i < r.pos; i++ {
			n.K = append(n.K, &RT{TLit, i, i + 1, nil})
		}
		return n
	}
	if k < 0 {
		return nil
	}
	row, ok := r.rows[k]
	if !ok {
		return nil
	}
	b := 0
	if r.pos < len(r.in) {
		b = int(r.in[r.pos])
	}
	ops, ok := row[b]
	if !ok {
		return nil
	}
	n := &RT{T: k, S: r.pos}
	if len(ops) == 0 {
		n.E = r.pos
		n.K = []*RT{{TNil, r.pos, r.pos, nil}}
		return n
	}
	for _, o := range ops {
		if o.Z {
			n.K = append(n.K, &RT{TLit, r.pos, r.pos, nil})
			continue
		}
		if o.S == "" {
			x := r.nt(o.N, depth+1)
			if x == nil {
				return nil
			}
			n.K = append(n.K, x)
			continue
		}
		if !strings.HasPrefix(r.in[r.pos:], string(o.S)) {
			return nil
		}
		n.K = append(n.K, &RT{TLit, r.pos, r.pos + len(o.S), nil})
		r.pos += len(o.S)
	}
	n.E = r.pos
	return n
}

// sameTab compares trees; of the node of a terminal with empty text only the
// span is specified.
func sameTab(n cst.Node, w *RT) error {
	if w.T == TLit && w.E == w.S { // of an empty terminal, too
		if n.Pos() != w.S || n.End() != w.E {
			return fmt.Errorf("empty terminal spans [%d,%d), want [%d,%d)", n.Pos(), n.End(), w.S, w.E)
		}
		return nil
	}
	if n.Type() != w.T || n.Pos() != w.S || n.End() != w.E || len(n.Childs()) != len(w.K) {
		return fmt.Errorf("node {%d [%d,%d) %d children}, want {%d [%d,%d) %d children}",
			n.Type(), n.Pos(), n.End(), len(n.Childs()), w.T, w.S, w.E, len(w.K))
	}
	for i, k := range n.Childs() {
		if err := sameTab(k, w.K[i]); err != nil {
			return err
		}
	}
	return nil
}

func checkTab(c *CaseTab, o *Obs) (err error) {
	rows := map[int]map[int][]TOp{}
	names := Names{}
	for _, r := range c.Rows {
		rows[r.K], _ = c.row(r.K)
		if r.K%3 != 1 { // some rows without a name
			names[r.K] = fmt.Sprintf("row%d", r.K)
		}
	}
	if len(names) == 0 {
		names = nil
	}
	tab, wantNames := c.table(), copyNames(names)
	p := parser.NewLL1Parser(tab, names)
	defer func() {
		if err == nil && !sameTable(tab, c.table()) {
			err = fmt.Errorf("parsing changed the table")
		}
		if err == nil {
			err = sameNames(names, wantNames)
		}
	}()
	if _, ok := rows[0]; c.Nil || !ok {
		o.Label("no row 0")
		o.NonTrivial()
		for i, src := range []any{"", "a", []byte(nil), []byte("a"), bytes.NewBufferString("a"), (*bytes.Buffer)(nil), nil, 17,
			io.Reader(strings.NewReader("a")), &chunkReader{data: "a", fail: failErrs[0]}} {
			if _, _, perr, err := parse(p, src); err != nil {
				return err
			} else if perr == nil {
				return fmt.Errorf("a table without row 0 parses source %d", i)
			}
		}
		return nil
	}
	for _, in := range c.In {
		r := &tabRun{rows: rows, in: string(in), big: c.Big}
		if len(in) > 1000 {
			o.Label("long input")
		}
		want := r.nt(0, 0)
		if r.tmo {
			o.Label("does not terminate in %d steps: not run", budget)
			continue
		}
		if want != nil && r.pos != len(in) {
			want = nil
			o.Label("left-over input")
		}
		n, nm, perr, err := parse(p, string(in))
		if err != nil {
			return err
		}
		if want == nil {
			o.Label("refused")
			if perr == nil {
				return fmt.Errorf("input %q: accepted as %v, following the table fails at %d", in, snap(n), r.pos)
			}
			continue
		}
		o.Label("accepted")
		if perr != nil {
			return fmt.Errorf("input %q: refused with %q, following the table gives %v", in, perr, want)
		}
		if err := sameTab(n, want); err != nil {
			return fmt.Errorf("input %q: %v\ngot %v\nwant %v", in, err, snap(n), want)
		}
		if err := sameNames(nm, withBuiltin(names)); err != nil {
			return fmt.Errorf("input %q: %v", in, err)
		}
		if want.size() >= 4 {
			o.NonTrivial()
		}
		if strings.Contains(string(in), "\x00") {
			o.Label("accepted with NUL")
		}
	}
	return nil
}

// drawInput plays the table with input made up on the way, so that much of it
// is accepted.
func drawInput(t *rapid.T, c *CaseTab) string {
	rows := map[int]map[int][]TOp{}
	for _, r := range c.Rows {
		rows[r.K], _ = c.row(r.K)
	}
	var sb []byte
	pend, atEnd := -1, false
	st := []TOp{{N: 0}}
	for steps := 0; len(st) > 0 && steps < 120; steps++ {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		switch {
		case x.Z:
		case x.S != "":
			sb = append(sb, x.S...)
			pend = -1
			atEnd = false
		case x.N == tEOL:
			switch {
			case pend == '\n':
				sb = append(sb, '\n')
			case pend == '\r':
				sb = append(sb, "\r\n"...)
			default:
				sb = append(sb, oneOf(t, "\n", "\r\n", "\n", "\r\n", "\r", "\n\r")...)
			}
			pend = -1
			atEnd = false
		default:
			row := rows[x.N]
			if len(row) == 0 {
				return string(sb)
			}
			if pend < 0 {
				var ks []int
				for b := range row {
					ks = append(ks, b)
				}
				sort.Ints(ks)
				if steps > 60 { // wind up: prefer short entries
					sort.SliceStable(ks, func(i, j int) bool { return len(row[ks[i]]) < len(row[ks[j]]) })
					ks = ks[:1]
				}
				pend = ks[uni(t, len(ks))]
				atEnd = pend == 0
			}
			ops, ok := row[pend]
			if !ok {
				return string(sb)
			}
			for i := len(ops) - 1; i >= 0; i-- {
				st = append(st, ops[i])
			}
		}
	}
	if pend >= 0 && !atEnd {
		sb = append(sb, byte(pend))
	}
	return string(sb)
}

func genTab(t *rapid.T) any {
	c := &CaseTab{}
	if pct(t, 3) {
		c.Nil = pct(t, 40)
		for i := 0; !c.Nil && i < oneOf(t, 0, 1, 2); i++ {
			c.Rows = append(c.Rows, TRow{K: 1 + i, E: []TEntry{{B: 'a', O: []TOp{{S: "a"}}}}})
		}
		return c
	}
	if pct(t, 30) { // a generated table, damaged
		var g Gram
		if k := uni(t, 200); k < 2 {
			l := genFat(t)
			if k == 0 {
				l = genLong(t, true)
			}
			g, c.Big, c.In = l.G, true, longTexts(l)
		} else {
			g = genLL1(t, GOpt{Small: pct(t, 70)})
		}
		a := analyze(g)
		for i := range g {
			row := TRow{K: i}
			for b := 0; b <= 256; b++ {
				cl := a.cell(i, b)
				if cl.alt < 0 || b == 0 && row.has(0) {
					continue
				}
				e := TEntry{B: b & 255, O: []TOp{}}
				if b == End && row.has(0) {
					continue
				}
				if !cl.empty {
					for _, s := range a.alts[i][cl.alt] {
						if s.nt >= 0 {
							e.O = append(e.O, TOp{N: s.nt})
						} else {
							e.O = append(e.O, TOp{S: Raw(s.text)})
						}
					}
				}
				row.E = append(row.E, e)
			}
			c.Rows = append(c.Rows, row)
		}
		for k := rng(t, 0, 3); k > 0 && !(c.Big && k < 3); k-- {
			r := &c.Rows[uni(t, len(c.Rows))]
			if len(r.E) == 0 {
				continue
			}
			e := &r.E[uni(t, len(r.E))]
			switch uni(t, 6) {
			case 5:
				k := uni(t, len(e.O)+1)
				e.O = append(append(append([]TOp{}, e.O[:k]...), TOp{Z: true}), e.O[k:]...)
			case 0: // also for another byte
				if b := int(oneOf(t, 0, 'a', 'b', 'q', 255)); !r.has(b) {
					r.E = append(r.E, TEntry{b, e.O})
				}
			case 1:
				e.O = nil
			case 2:
				e.O = append(append([]TOp{}, e.O...), TOp{S: "q"})
			case 3:
				e.O = append(append([]TOp{}, e.O...), TOp{N: oneOf(t, tEOL, tEOL, 1, len(c.Rows), -1, -3)})
			case 4:
				*e = r.E[len(r.E)-1]
				r.E = r.E[:len(r.E)-1]
			}
		}
	} else {
		n := rng(t, 1, 6)
		keys := []int{0}
		for i := 1; i < n; i++ {
			keys = append(keys, oneOf(t, i, i, i, i+40, 1000+i, 1<<40+i))
		}
		al := []byte{'a', 'b', 'c', oneOf(t, byte('d'), 0, 255, 128, '\n', '\r', ' ')}
		term := func(first int) TOp {
			s := []byte{byte(first)}
			for k := weighted(t, 60, 25, 15); k > 0; k-- {
				s = append(s, al[uni(t, len(al))])
			}
			return TOp{S: Raw(s)}
		}
		missing := pct(t, 10)
		for i, k := range keys {
			row := TRow{K: k}
			bs := []int{}
			for b := range 256 {
				if bytes.IndexByte(al, byte(b)) >= 0 && pct(t, 60) || b == 0 && pct(t, 50) || (b == '\n' || b == '\r') && pct(t, 15) {
					bs = append(bs, b)
				}
			}
			if pct(t, 3) {
				bs = nil
			}
			for _, b := range bs {
				e := TEntry{B: b}
				consumed := false
				for k := weighted(t, 25, 30, 25, 15, 5); k > 0; k-- {
					switch x := uni(t, 100); {
					case x < 8:
						e.O = append(e.O, TOp{N: tEOL})
						consumed = true
					case x < 9:
						e.O = append(e.O, oneOf(t, TOp{N: -1}, TOp{N: -3}, TOp{N: -100}, TOp{Z: true}, TOp{Z: true}))
					case missing && x < 14:
						e.O = append(e.O, TOp{N: 77})
					case x < 55:
						f := int(al[uni(t, len(al))])
						if !consumed && (b != 0 || al[3] == 0 && pct(t, 50)) && pct(t, 90) {
							f = b
						}
						e.O = append(e.O, term(f))
						consumed = true
					default:
						j := uni(t, n)
						if !consumed && pct(t, 90) { // forward, so that it ends
							if i == n-1 {
								e.O = append(e.O, term(max(b, 1)))
								consumed = true
								continue
							}
							j = rng(t, i+1, n-1)
						}
						e.O = append(e.O, TOp{N: keys[j]})
					}
				}
				row.E = append(row.E, e)
			}
			c.Rows = append(c.Rows, row)
		}
	}
	al := []byte("abc\x00\n\rq")
	for k := 0; k < 5; k++ {
		s := drawInput(t, c)
		switch weighted(t, 60, 25, 10, 5) {
		case 1:
			s = mutate(t, s, al)
		case 2:
			s += oneOf(t, "a", "\x00", "\n", "\r\n", "\x00\x00")
		case 3:
			s = s[:uni(t, len(s)+1)]
		}
		c.In = append(c.In, Raw(s))
	}
	return c
}

func (r *TRow) has(b int) bool {
	for _, e := range r.E {
		if e.B == b {
			return true
		}
	}
	return false
}

func init() {
	register(&Prop{
		ID:       "C19",
		Rule:     "a case is a table (random rows with gaps, missing entries, unknown and built-in symbols, NUL and line-end bytes; or a generated table with up to three changes; or no row 0) and five inputs drawn by playing the table, some altered; results are compared with a literal interpreter, runs over 4000 steps are not made; non-trivial: a tree of at least 4 nodes, or a table without row 0",
		Quick:    40000,
		Thorough: 1000000,
		New:      func() any { return &CaseTab{} },
		Gen:      genTab,
		Check:    func(ci any, o *Obs) error { return checkTab(ci.(*CaseTab), o) },
		Assume:   []string{"tables on which following the table takes more than 4000 steps are not run", "of the tree node of a terminal with empty text only the span is compared"},
	})
}
