package main

// C15 C16: tree walking and byte sets, against direct models.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"pgregory.net/rapid"
)

// ---- C15

type WNode struct {
	P  int   `json:"p"` // parent, an earlier node
	T  int   `json:"t"`
	S  int   `json:"s"`
	E  int   `json:"e"`
	K  int   `json:"k,omitempty"`  // 0 NewNode, 1 and 2 caller's own types
	Z  bool  `json:"z,omitempty"`  // childless: empty instead of nil slice
	D  []int `json:"d,omitempty"`  // by visitor: -1 nil, else the next visitor
	In int   `json:"in,omitempty"` // visitor of a walk made inside Visit, 0 none
}

type CaseWalk struct {
	N   []WNode `json:"n,omitempty"`
	V   int     `json:"v"`
	Big string  `json:"big,omitempty"` // chain, fan, comb
	Len int     `json:"len,omitempty"`
	Tw  bool    `json:"tw,omitempty"` // nodes may report the same
}

const walkVisitors = 4

type ownNode struct {
	t, s, e int
	c       []cst.Node
}

func (n *ownNode) Type() int          { return n.t }
func (n *ownNode) Pos() int           { return n.s }
func (n *ownNode) End() int           { return n.e }
func (n *ownNode) Childs() []cst.Node { return n.c }

// freshNode hands out a new slice on every call.
type freshNode struct{ *ownNode }

func (n freshNode) Childs() []cst.Node { return append([]cst.Node{}, n.c...) }

type wkey struct{ t, s, e int }

type wstep struct{ v, n int }

type walkRun struct {
	c    *CaseWalk
	ids  map[wkey]int // the first node that reports this
	same []int        // per node, the first that reports the same
	kids [][]int
	got  []wstep
	bad  error
}

func (r *walkRun) decide(v, n int) int {
	d := r.c.N[n].D
	if len(d) == 0 {
		return v
	}
	return d[v%len(d)]
}

type walkVisitor struct {
	r *walkRun
	v int
}

func (w *walkVisitor) Visit(n cst.Node) cst.Visitor {
	if w == nil {
		return (*walkVisitor)(nil)
	}
	r := w.r
	id, ok := r.ids[wkey{n.Type(), n.Pos(), n.End()}]
	if !ok {
		if r.bad == nil {
			r.bad = fmt.Errorf("visited a node that is not in the tree: %d [%d,%d)", n.Type(), n.Pos(), n.End())
		}
		return nil
	}
	r.got = append(r.got, wstep{w.v, id})
	if len(r.got) > 40*len(r.c.N)+1000 {
		r.bad = fmt.Errorf("too many visits")
		return nil
	}
	if in := r.c.N[id].In; in > 0 && w.v < walkVisitors {
		cst.Walk(&walkVisitor{r, walkVisitors + in}, n)
	}
	d := r.decide(w.v, id)
	if d < 0 {
		return nil
	}
	if w.v >= walkVisitors { // inside an inner walk: stay inner
		return w
	}
	if d == w.v {
		return w
	}
	return &walkVisitor{r, d}
}

// expect is the sequence of visits the property asks for.
func (r *walkRun) expect(v, root int) []wstep {
	var out []wstep
	type todo struct{ v, n int }
	st := []todo{{v, root}}
	for len(st) > 0 {
		x := st[len(st)-1]
		st = st[:len(st)-1]
		id := r.same[x.n]
		out = append(out, wstep{x.v, id})
		if in := r.c.N[id].In; in > 0 && x.v < walkVisitors {
			out = append(out, r.expect(walkVisitors+in, x.n)...)
		}
		d := r.decide(x.v, id)
		if d < 0 {
			continue
		}
		if x.v >= walkVisitors {
			d = x.v
		}
		k := r.kids[x.n]
		for i := len(k) - 1; i >= 0; i-- {
			st = append(st, todo{d, k[i]})
		}
	}
	return out
}

func checkWalk(c *CaseWalk, o *Obs) error {
	if c.Big != "" {
		full := &CaseWalk{V: c.V}
		for i := 0; i < c.Len; i++ {
			n := WNode{T: i % 7, S: i, E: i + 1}
			switch c.Big {
			case "chain":
				n.P = max(i-1, 0)
			case "comb":
				n.P = max(i-1-i%2, 0)
			}
			full.N = append(full.N, n)
		}
		o.Label("big %s", c.Big)
		c = full
	}
	r := &walkRun{c: c, ids: map[wkey]int{}, kids: make([][]int, len(c.N))}
	for i := range c.N {
		n := &c.N[i]
		for { // every node is told apart by what it reports
			id, ok := r.ids[wkey{n.T, n.S, n.E}]
			if !ok {
				r.ids[wkey{n.T, n.S, n.E}], id = i, i
			}
			if !ok || c.Tw {
				r.same = append(r.same, id)
				break
			}
			n.E++
		}
		if i > 0 {
			r.kids[n.P] = append(r.kids[n.P], i)
		}
	}
	nodes := make([]cst.Node, len(c.N))
	args := make([][]cst.Node, len(c.N))
	for i := len(c.N) - 1; i >= 0; i-- {
		n := c.N[i]
		var k []cst.Node
		if n.Z {
			k = []cst.Node{}
		}
		for _, j := range r.kids[i] {
			k = append(k, nodes[j])
		}
		args[i] = k
		switch n.K {
		case 0:
			nodes[i] = cst.NewNode(n.T, n.S, n.E, k)
		case 1:
			nodes[i] = &ownNode{n.T, n.S, n.E, k}
		default:
			nodes[i] = freshNode{&ownNode{n.T, n.S, n.E, k}}
		}
	}
	same := func() error {
		for i, n := range nodes {
			w := c.N[i]
			if n.Type() != w.T || n.Pos() != w.S || n.End() != w.E {
				return fmt.Errorf("node made as %d [%d,%d) reports %d [%d,%d)", w.T, w.S, w.E, n.Type(), n.Pos(), n.End())
			}
			k := n.Childs()
			if len(k) != len(r.kids[i]) || len(args[i]) != len(k) {
				return fmt.Errorf("node made with %d children reports %d", len(r.kids[i]), len(k))
			}
			for j, id := range r.kids[i] {
				for _, x := range []cst.Node{k[j], args[i][j]} {
					if r.ids[wkey{x.Type(), x.Pos(), x.End()}] != r.same[id] || x.Type() != c.N[id].T {
						return fmt.Errorf("child %d of a node is another than given", j)
					}
				}
			}
		}
		return nil
	}
	if err := same(); err != nil {
		return err
	}
	want := r.expect(c.V, 0)
	for round := 0; round < 2; round++ {
		r.got = nil
		cst.Walk(&walkVisitor{r, c.V}, nodes[0])
		if r.bad != nil {
			return r.bad
		}
		for i := range want {
			if i >= len(r.got) {
				return fmt.Errorf("%d visits, want %d; missing visitor %d at node %d", len(r.got), len(want), want[i].v, want[i].n)
			}
			if r.got[i] != want[i] {
				return fmt.Errorf("visit %d: visitor %d at node %d, want visitor %d at node %d", i, r.got[i].v, r.got[i].n, want[i].v, want[i].n)
			}
		}
		if len(r.got) > len(want) {
			x := r.got[len(want)]
			return fmt.Errorf("%d visits, want %d; extra: visitor %d at node %d", len(r.got), len(want), x.v, x.n)
		}
	}
	if err := same(); err != nil {
		return fmt.Errorf("after walking: %v", err)
	}
	// a visitor that is a nil pointer in a non-nil interface is a visitor
	cst.Walk((*walkVisitor)(nil), nodes[0])
	pruned, switched, inner := false, false, false
	for _, n := range c.N {
		for _, d := range n.D {
			pruned = pruned || d < 0
			switched = switched || d >= 0
		}
		inner = inner || n.In > 0
	}
	for l, b := range map[string]bool{"pruning": pruned, "visitor changes": switched, "walk inside a visit": inner, "twins": c.Tw} {
		if b {
			o.Label("%s", l)
		}
	}
	if len(c.N) >= 4 && len(want) >= 3 {
		o.NonTrivial()
	}
	return nil
}

func genWalk(t *rapid.T) any {
	if pct(t, 1) {
		return &CaseWalk{Big: oneOf(t, "chain", "fan", "comb"), Len: rng(t, 100, 5000)}
	}
	c := &CaseWalk{V: uni(t, walkVisitors)}
	n := rng(t, 1, oneOf(t, 4, 10, 24))
	shape := uni(t, 3)
	plain := pct(t, 30)
	c.Tw = pct(t, 30)
	for i := 0; i < n; i++ {
		x := WNode{}
		switch {
		case i == 0:
		case shape == 0:
			x.P = uni(t, i)
		case shape == 1:
			x.P = i - 1 - uni(t, min(i, 3))
		default:
			x.P = uni(t, min(i, 3))
		}
		x.T = oneOf(t, 0, 1, 2, 3, 5, 17, 300, -1, -2, -3, 1<<40)
		x.S = oneOf(t, 0, 0, 1, i, i, 7, -1, 1<<33)
		x.E = x.S + oneOf(t, 0, 0, 1, 2, 9, -4)
		if c.Tw && i > 1 && pct(t, 50) { // as another, often a sibling
			y := c.N[i-1]
			if pct(t, 30) {
				y = c.N[uni(t, i)]
			} else {
				x.P = y.P
			}
			x.T, x.S, x.E = y.T, y.S, y.E
		}
		if !plain {
			x.K = weighted(t, 70, 15, 15)
		}
		x.Z = pct(t, 30)
		if pct(t, 45) {
			for k := rng(t, 1, walkVisitors); k > 0; k-- {
				x.D = append(x.D, oneOf(t, -1, -1, 0, 1, 2, 3))
			}
		}
		if pct(t, 4) {
			x.In = 1 + uni(t, walkVisitors)
		}
		c.N = append(c.N, x)
	}
	return c
}

// ---- C16

const setRegs = 4

type SOp struct {
	K string `json:"k"` // new, zero, add, rem, addr, remr, copy, union, flip
	I int    `json:"i"`
	A int    `json:"a,omitempty"`
	B int    `json:"b,omitempty"`
	V []int  `json:"v,omitempty"`
}

type CaseSet struct {
	Ops []SOp `json:"ops,omitempty"`
	// Pair case: everything about {x}, {y}, {x,y} and their complements
	Pair bool `json:"pair,omitempty"`
	X    int  `json:"x,omitempty"`
	Y    int  `json:"y,omitempty"`
}

type mset [256]bool

func (m mset) list() []byte {
	var r []byte
	for i, b := range m {
		if b {
			r = append(r, byte(i))
		}
	}
	return r
}

func sameSet(s byteset.ByteSet, m mset) error {
	want := m.list()
	if n := s.Len(); n != len(want) {
		return fmt.Errorf("Len() = %d of %x", n, want)
	}
	b := s.Bytes()
	if string(b) != string(want) {
		return fmt.Errorf("Bytes() = %x, want %x", b, want)
	}
	for i := range m {
		if s.Contains(byte(i)) != m[i] {
			return fmt.Errorf("Contains(%d) = %v", i, !m[i])
		}
	}
	sb := strings.Builder{}
	for i, v := range want {
		if i > 0 {
			sb.WriteByte(' ')
		}
		const hex = "0123456789ABCDEF"
		sb.WriteByte(hex[v>>4])
		sb.WriteByte(hex[v&15])
	}
	if g, w := s.String(), "["+sb.String()+"]"; g != w {
		return fmt.Errorf("String() = %q, want %q", g, w)
	}
	if g, w := fmt.Sprint(s), "["+sb.String()+"]"; g != w {
		return fmt.Errorf("prints as %q, want %q", g, w)
	}
	// the listing belongs to the caller: a later one does not change it
	other := byteset.New(0xFF, 0x41, 0)
	other.Bytes()
	_, _ = other.String(), s.String()
	if string(b) != string(want) {
		return fmt.Errorf("an earlier listing changed to %x, want %x", b, want)
	}
	for i := range b {
		b[i] = ^b[i]
	}
	_ = append(b, 1, 2, 3)
	if string(s.Bytes()) != string(want) {
		return fmt.Errorf("changing the listing changed the set")
	}
	return nil
}

func relations(s, t byteset.ByteSet, m, n mset) error {
	eq, sub, sup := true, true, true
	for i := range m {
		eq = eq && m[i] == n[i]
		sub = sub && (!m[i] || n[i])
		sup = sup && (!n[i] || m[i])
	}
	for _, x := range []struct {
		name      string
		got, want bool
	}{{"Equal", s.Equal(t), eq}, {"IsSubSet", s.IsSubSet(t), sub}, {"IsSuperSet", s.IsSuperSet(t), sup}} {
		if x.got != x.want {
			return fmt.Errorf("%s is %v for %x and %x", x.name, x.got, m.list(), n.list())
		}
	}
	return nil
}

func munion(m, n mset) mset {
	for i := range n {
		m[i] = m[i] || n[i]
	}
	return m
}

func checkPair(x, y byte) error {
	full := make([]byte, 256)
	for i := range full {
		full[i] = byte(i)
	}
	var ms [7]mset
	var ss [7]byteset.ByteSet
	ss[0], ms[0][x] = byteset.New(x), true
	ss[1], ms[1][y] = byteset.New(y), true
	ss[2], ms[2][x], ms[2][y] = byteset.New(x, y), true, true
	for i := range full {
		ms[3][i], ms[4][i] = true, true
	}
	ss[3], ss[4] = byteset.New(full...), byteset.New(full...)
	ss[3].Remove(x)
	ss[3].Remove(y)
	ms[3][x], ms[3][y] = false, false
	ss[4].Remove(y)
	ms[4][y] = false
	ss[5] = ss[2]
	ss[5].Remove(x)
	ms[5] = ms[2]
	ms[5][x] = false
	ss[6] = ss[4]
	ss[6].Remove(x)
	ss[6].Add(y)
	ms[6] = ms[4]
	ms[6][x], ms[6][y] = false, true
	for i := range ss {
		if err := sameSet(ss[i], ms[i]); err != nil {
			return fmt.Errorf("set %d: %v", i, err)
		}
		for j := range ss {
			if err := relations(ss[i], ss[j], ms[i], ms[j]); err != nil {
				return err
			}
			if j <= i || i == 1 || i == 4 {
				continue
			}
			if err := sameSet(ss[i].Union(ss[j]), munion(ms[i], ms[j])); err != nil {
				return fmt.Errorf("union of sets %d and %d: %v", i, j, err)
			}
		}
	}
	return nil
}

func checkSet(c *CaseSet, o *Obs) error {
	if c.Pair {
		o.NonTrivial()
		return checkPair(byte(c.X), byte(c.Y))
	}
	var ss [setRegs]byteset.ByteSet
	var ms [setRegs]mset
	nonEmpty := 0
	for k, op := range c.Ops {
		o.Label("%s", op.K)
		i, v := op.I, byte(op.A)
		switch op.K {
		case "new":
			vals := make([]byte, 0, len(op.V)+2)
			ms[i] = mset{}
			for _, x := range op.V {
				vals = append(vals, byte(x))
				ms[i][x] = true
			}
			ss[i] = byteset.New(vals...)
			for j, x := range op.V {
				if vals[j] != byte(x) {
					return fmt.Errorf("step %d: New changed its argument", k)
				}
				vals[j] = ^vals[j]
			}
		case "zero":
			ss[i], ms[i] = byteset.ByteSet{}, mset{}
		case "add":
			ss[i].Add(v)
			ms[i][v] = true
		case "rem":
			ss[i].Remove(v)
			ms[i][v] = false
		case "addr":
			for x := op.A; x <= op.B; x++ {
				ss[i].Add(byte(x))
				ms[i][x] = true
			}
		case "remr":
			for x := op.A; x <= op.B; x++ {
				ss[i].Remove(byte(x))
				ms[i][x] = false
			}
		case "copy":
			ss[i], ms[i] = ss[op.A], ms[op.A]
		case "union":
			ss[i], ms[i] = ss[op.A].Union(ss[op.B]), munion(ms[op.A], ms[op.B])
		case "flip": // complement, element by element
			for x := range ms[i] {
				if ss[i].Contains(byte(x)) {
					ss[i].Remove(byte(x))
				} else {
					ss[i].Add(byte(x))
				}
				ms[i][x] = !ms[i][x]
			}
		}
		for a := range ss {
			if err := sameSet(ss[a], ms[a]); err != nil {
				return fmt.Errorf("step %d (%s): set %d: %v", k, op.K, a, err)
			}
			for b := range ss {
				if err := relations(ss[a], ss[b], ms[a], ms[b]); err != nil {
					return fmt.Errorf("step %d (%s): %v", k, op.K, err)
				}
			}
			if a < 2 {
				if err := sameSet(ss[a].Union(ss[a+2]), munion(ms[a], ms[a+2])); err != nil {
					return fmt.Errorf("step %d (%s): union of %d and %d: %v", k, op.K, a, a+2, err)
				}
			}
		}
		nonEmpty = 0
		for a := range ms {
			if len(ms[a].list()) > 0 {
				nonEmpty++
			}
		}
	}
	if nonEmpty >= 2 && len(c.Ops) >= 4 {
		o.NonTrivial()
	}
	return nil
}

func genSet(t *rapid.T) any {
	c := &CaseSet{}
	val := func() int {
		if pct(t, 40) {
			return oneOf(t, 0, 1, 31, 32, 62, 63, 64, 65, 126, 127, 128, 129, 190, 191, 192, 193, 254, 255)
		}
		return uni(t, 256)
	}
	for k := rng(t, 2, 24); k > 0; k-- {
		op := SOp{I: uni(t, setRegs)}
		op.K = []string{"new", "zero", "add", "rem", "addr", "remr", "copy", "union", "flip"}[weighted(t, 12, 3, 25, 18, 10, 8, 12, 16, 3)]
		switch op.K {
		case "new":
			for j := oneOf(t, 0, 1, 2, 3, 8, 40); j > 0; j-- {
				op.V = append(op.V, val())
			}
		case "add", "rem":
			op.A = val()
		case "addr", "remr":
			op.A, op.B = val(), val()
			if op.A > op.B {
				op.A, op.B = op.B, op.A
			}
		case "copy", "union":
			op.A, op.B = uni(t, setRegs), uni(t, setRegs)
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func init() {
	register(&Prop{
		ID:       "C15",
		Rule:     "a case is a tree of 1-24 nodes (library nodes and the caller's own node types, arbitrary types and spans, nil and empty child slices) and, per node and visitor, a decision (nil, same, other visitor, a walk inside the visit); the sequence of (visitor, node) is compared with the one computed from the definition, twice; plus chains, fans and combs up to 100000 nodes; non-trivial: at least 4 nodes and 3 visits",
		Quick:    60000,
		Thorough: 300000,
		New:      func() any { return &CaseWalk{} },
		Gen:      genWalk,
		Check:    func(ci any, o *Obs) error { return checkWalk(ci.(*CaseWalk), o) },
		EnumDesc: "chains, fans and combs of 1-66, 255-258, 65535-65537 and 100000 nodes",
		Enum: func(tier string, k, n int, yield func(any) bool) {
			var lens []int
			for i := 1; i <= 66; i++ {
				lens = append(lens, i)
			}
			lens = append(lens, 255, 256, 257, 258, 65535, 65536, 65537, 100000)
			i := 0
			for _, l := range lens {
				for _, s := range []string{"chain", "fan", "comb"} {
					if i++; i%n == k && !yield(&CaseWalk{Big: s, Len: l}) {
						return
					}
				}
			}
		},
	})
	register(&Prop{
		ID:       "C16",
		Rule:     "a case is a sequence of 2-24 operations on four byte sets, compared in full with arrays of 256 booleans after every operation; plus, for every pair of bytes x, y, the sets {x}, {y}, {x,y}, the complements and removals with all their relations and unions; non-trivial: at least 4 operations ending with two non-empty sets, or a pair",
		Quick:    1500,
		Thorough: 60000,
		New:      func() any { return &CaseSet{} },
		Gen:      genSet,
		Check:    func(ci any, o *Obs) error { return checkSet(ci.(*CaseSet), o) },
		EnumDesc: "all 65536 pairs of bytes (quick: all pairs with x<=y)",
		Enum: func(tier string, k, n int, yield func(any) bool) {
			i := 0
			for x := 0; x < 256; x++ {
				for y := 0; y < 256; y++ {
					if tier == "quick" && y < x {
						continue
					}
					if i++; i%n == k && !yield(&CaseSet{Pair: true, X: x, Y: y}) {
						return
					}
				}
			}
		},
	})
}
