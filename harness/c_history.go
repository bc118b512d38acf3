package main

// C12 C13: histories of calls over shared objects, sequential and concurrent.

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync"
	"syscall"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen"
	"github.com/TooManySugar/ll1parser/pkg/bnf/tablegen/byteset"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

// ---- arguments with spare capacity, so that appends into them show

var slackSym = bnf.SymbolTerminal{Name: "slack"}

func slackBNF(g Gram) bnf.Grammar {
	b := g.ToBNF()
	for i := range b.Rules {
		seqs := b.Rules[i].Tail.Sequences
		for j := range seqs {
			n := len(seqs[j].Symbols)
			s := append(append(make([]bnf.Symbol, 0, n+2), seqs[j].Symbols...), slackSym, slackSym)
			seqs[j].Symbols = s[:n]
		}
		n := len(seqs)
		s := append(append(make([]bnf.Sequence, 0, n+2), seqs...), bnf.Sequence{}, bnf.Sequence{})
		b.Rules[i].Tail.Sequences = s[:n]
	}
	n := len(b.Rules)
	b.Rules = append(append(make([]bnf.Rule, 0, n+1), b.Rules...), bnf.Rule{})[:n]
	return b
}

// intact tells whether a grammar made by slackBNF is as it was.
func intact(b bnf.Grammar, g Gram) error {
	now, err := FromBNF(b)
	if err != nil || !now.equal(g) {
		return fmt.Errorf("the grammar passed in was changed to %v", now)
	}
	for _, r := range b.Rules {
		seqs := r.Tail.Sequences
		for _, s := range seqs {
			n := len(s.Symbols)
			if cap(s.Symbols) < n+2 || s.Symbols[:n+2][n] != bnf.Symbol(slackSym) || s.Symbols[:n+2][n+1] != bnf.Symbol(slackSym) {
				return errors.New("memory behind a sequence of the grammar was changed")
			}
		}
		if n := len(seqs); cap(seqs) < n+2 || seqs[:n+2][n].Symbols != nil || seqs[:n+2][n+1].Symbols != nil {
			return errors.New("memory behind the alternatives of the grammar was changed")
		}
	}
	if n := len(b.Rules); b.Rules[:n+1][n].Head.Name != "" || b.Rules[:n+1][n].Tail.Sequences != nil {
		return errors.New("memory behind the rules of the grammar was changed")
	}
	return nil
}

var slackOp = parser.OpTerminal("slack")

func slackTable(t Table) Table {
	r := Table{}
	for k, row := range t {
		nr := map[byte][]parser.ParserOp{}
		for b, ops := range row {
			n := len(ops)
			if ops == nil {
				nr[b] = nil
				continue
			}
			nr[b] = append(append(make([]parser.ParserOp, 0, n+2), ops...), slackOp, slackOp)[:n]
		}
		r[k] = nr
	}
	return r
}

func sameTable(a, b Table) bool {
	if len(a) != len(b) {
		return false
	}
	for k, row := range b {
		ar, ok := a[k]
		if !ok || len(ar) != len(row) {
			return false
		}
		for c, ops := range row {
			ao, ok := ar[c]
			if !ok || !sameOps(ao, ops) || (ao == nil) != (ops == nil) {
				return false
			}
		}
	}
	return true
}

func slackIntact(t Table) bool {
	for _, row := range t {
		for _, ops := range row {
			n := len(ops)
			if ops == nil {
				continue
			}
			if cap(ops) < n+2 || !reflect.DeepEqual(ops[:n+2][n], slackOp) || !reflect.DeepEqual(ops[:n+2][n+1], slackOp) {
				return false
			}
		}
	}
	return true
}

func copyNames(n Names) Names {
	r := Names{}
	for k, v := range n {
		r[k] = v
	}
	return r
}

// ---- output of the process

// outputSize gives the sizes of the files behind stdout and stderr, or false
// if they are not files.
func outputSize() (int64, bool) {
	var a, b syscall.Stat_t
	if syscall.Fstat(1, &a) != nil || syscall.Fstat(2, &b) != nil ||
		a.Mode&syscall.S_IFMT != syscall.S_IFREG || b.Mode&syscall.S_IFMT != syscall.S_IFREG {
		return 0, false
	}
	return a.Size + b.Size, true
}

// quiet runs f and tells how many bytes it printed.
func quiet(f func()) (n int64, err error) {
	if before, ok := outputSize(); ok {
		f()
		after, _ := outputSize()
		return after - before, nil
	}
	tmp, err := os.CreateTemp("", "out")
	if err != nil {
		return 0, bug("%v", err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	var saved [2]int
	for i := range saved {
		if saved[i], err = syscall.Dup(i + 1); err != nil {
			return 0, bug("%v", err)
		}
		defer syscall.Close(saved[i])
		if err := syscall.Dup2(int(tmp.Fd()), i+1); err != nil {
			return 0, bug("%v", err)
		}
	}
	defer func() {
		for i := range saved {
			syscall.Dup2(saved[i], i+1)
		}
	}()
	f()
	st, err := tmp.Stat()
	if err != nil {
		return 0, bug("%v", err)
	}
	return st.Size(), nil
}

// ---- C12

type HOp struct {
	K int `json:"k"` // kind
	A int `json:"a"`
	B int `json:"b"`
}

type CaseHist struct {
	G    []Gram  `json:"g"`
	In   [][]Raw `json:"in"` // per grammar
	Text []Raw   `json:"text"`
	Ops  []HOp   `json:"ops"`
}

// isolated results, computed on objects nobody else sees
type iso struct {
	err   string
	table Table
	names Names
	print string
}

type histParser struct {
	gi    int
	ver   int  // version of the grammar
	g     Gram // the grammar as it was
	p     parser.LL1Parser
	table Table
	names Names
	wantT Table
	wantN Names
	slack bool
	nv    int // variant of the names given to the parser
	tv    int // variant of its table
}

// namesVariant are other name maps a caller may build a parser with.
func namesVariant(n Names, v int) Names {
	r := copyNames(n)
	switch v {
	case 1:
		return nil
	case 2:
		return Names{}
	case 3: // only the first rule
		for k := range r {
			if k != 0 {
				delete(r, k)
			}
		}
	case 4: // not the first, and others
		delete(r, 0)
		r[-7], r[9999], r[TLit] = "minus", "far", "mine"
	case 5: // what an earlier parse returned
		r = withBuiltin(r)
	}
	return r
}

// tableVariant are other tables: 1 lacks the last row, 2 an entry, 3 has nil
// for empty entries, 4 has nil for the last row.
func tableVariant(t Table, v int) Table {
	switch v {
	case 1:
		if len(t) > 1 {
			delete(t, len(t)-1)
		}
	case 2:
		for b := 0; b < 256; b++ {
			if _, ok := t[len(t)-1][byte(b)]; ok {
				delete(t[len(t)-1], byte(b))
				break
			}
		}
	case 3:
		for _, row := range t {
			for b, ops := range row {
				if len(ops) == 0 {
					row[b] = nil
				}
			}
		}
	case 4:
		t[len(t)-1] = nil
	}
	return t
}

type histRes struct {
	what  string
	tree  cst.Node
	snap  *RT
	names Names
	want  Names
	table Table
	wantT Table
	gram  *bnf.Grammar
	wantG Gram
}

func genHist(t *rapid.T) any {
	c := &CaseHist{}
	n := rng(t, 1, 3)
	big := false
	for i := 0; i < n; i++ {
		var g Gram
		switch {
		case i == 0 && uni(t, 60) == 0: // long inputs
			l := genLong(t, true)
			if pct(t, 40) {
				l = genFat(t)
			}
			g, big = l.G, true
			if len(l.Long)+len(l.In) > 1 {
				c.G = append(c.G, g)
				c.In = append(c.In, longTexts(l))
				continue
			}
		case i > 0 && len(c.G[i-1]) > 0 && pct(t, 60): // a relative of an earlier one, same names
			g = c.G[i-1].clone()
			r := uni(t, len(g))
			if pct(t, 40) {
				g = shuffleGram(t, g)
			} else if len(g[r].Alts) > 0 {
				a := uni(t, len(g[r].Alts))
				switch uni(t, 3) {
				case 0:
					g[r].Alts[a] = []Sym{T(oneOf(t, "q", "a", "zz"))}
				case 1:
					g[r].Alts = append(g[r].Alts, []Sym{T(oneOf(t, "q", "a", "zz"))})
				case 2:
					g[r].Alts[a] = append(g[r].Alts[a], T("q"))
				}
			}
			if pct(t, 50) {
				if h, _, ok := repair(dropBad(g), []byte("abcq"), false); ok {
					g = h
				}
			}
		case pct(t, 85):
			g = genLL1(t, GOpt{Small: true})
		case pct(t, 50):
			g = genConflict(t, GOpt{Small: true})
		default:
			g = plantFlaw(t, genLL1(t, GOpt{Small: true}), false)
		}
		c.G = append(c.G, g)
		var ins []Raw
		if wellFormed(g) == "" {
			ins = genInputs(t, g, analyze(g), 3)
			if big && i > 0 && len(c.In[0]) > 2 {
				ins = append(ins, c.In[0][:2]...)
			}
		} else {
			ins = []Raw{"", "a", "b"}
		}
		c.In = append(c.In, ins)
	}
	for i := 0; i < 2; i++ {
		s := layout(t, genGram(t, GOpt{BNF: true, Small: true, MaxR: 3}))
		if pct(t, 25) {
			s = editText(t, s)
		}
		c.Text = append(c.Text, Raw(s))
	}
	for i := range c.G { // start with tables to work on
		c.Ops = append(c.Ops, HOp{0, i, 0})
	}
	for k := rng(t, 5, 18); k > 0; k-- {
		c.Ops = append(c.Ops, HOp{weighted(t, 12, 8, 36, 8, 6, 7, 7, 4, 4, 8, 8, 3, 6), uni(t, 8), uni(t, 24)})
	}
	return c
}

// longTexts are the inputs of a long case, short ones last.
func longTexts(l *CaseGI) (r []Raw) {
	for _, b := range l.Long {
		r = append(r, Raw(b.text()))
	}
	for len(l.In)+len(r) > 0 && len(r) < 4 { // as many as are used
		r = append(r, l.In...)
		r = append(r, l.Tail...)
		if len(l.In)+len(l.Tail) == 0 {
			r = append(r, r...)
		}
	}
	return r
}

// dropBad makes a grammar well-formed enough for repair.
func dropBad(g Gram) Gram {
	if wellFormed(g) == "" {
		return g
	}
	return simple
}

func isolate(g Gram) iso {
	t, n, err := tablegen.FromGrammar(g.clone().ToBNF())
	r := iso{print: g.clone().ToBNF().String()}
	if err != nil {
		r.err = "error: " + err.Error()
		return r
	}
	r.table, r.names = *t, *n
	return r
}

type textIso struct {
	refused string
	g       Gram
	conv    string
}

func convert(p parser.LL1Parser, b fromcst.BNFCSTtoASTBindings, text string) (textIso, cst.Node, *bnf.Grammar, error) {
	n, _, perr, err := parse(p, text)
	if err != nil {
		return textIso{}, nil, nil, err
	}
	if perr != nil {
		return textIso{refused: "error: " + perr.Error()}, nil, nil, nil
	}
	ast, cerr := b.ToAST(n, text)
	if cerr != nil {
		return textIso{conv: "error: " + cerr.Error()}, n, nil, nil
	}
	g, err := FromBNF(*ast)
	return textIso{g: g}, n, ast, err
}

func (a textIso) same(b textIso) bool {
	return a.refused == b.refused && a.conv == b.conv && a.g.equal(b.g)
}

func oddBindings() fromcst.BNFCSTtoASTBindings {
	b := fromcst.SelfCSTtoASTBindings()
	// unsorted on purpose, with spare capacity
	b.IgnoreNodeTypes = append(make([]int, 0, 8), 25, 999, 24, -2, 77)
	b.SymbolTerminalTypes = append(make([]int, 0, 4), 12, 11)
	return b
}

func checkHist(c *CaseHist, o *Obs) error {
	selfAtFirst()
	// isolated results first, on private copies
	isos := make([]iso, len(c.G))
	for i, g := range c.G {
		isos[i] = isolate(g)
		if flaw := wellFormed(g); flaw == "" {
			a := analyze(g)
			if !a.dormant() && a.ll1() != (isos[i].err == "") {
				o.Label("isolated verdict disagrees with the reference (see C03, C04)")
			}
		}
	}
	type key struct {
		gi, ver, nv, tv int
		in              string
	}
	alone := map[key]outcome{}
	wantParse := func(q *histParser, in string) (outcome, error) {
		k := key{q.gi, q.ver, q.nv, q.tv, in}
		if x, ok := alone[k]; ok {
			return x, nil
		}
		fresh := isolate(q.g)
		x, err := run1(parser.NewLL1Parser(tableVariant(fresh.table, q.tv), namesVariant(fresh.names, q.nv)), in)
		alone[k] = x
		return x, err
	}
	sp, _, _, err := buildBNF(bnf.SelfGrammar())
	if err != nil {
		return err
	}
	wantText := make([]textIso, len(c.Text))
	for i, x := range c.Text {
		p, _, _, err := buildBNF(bnf.SelfGrammar())
		if err != nil {
			return err
		}
		if wantText[i], _, _, err = convert(p, fromcst.SelfCSTtoASTBindings(), string(x)); err != nil {
			return err
		}
	}
	// shared objects
	shared := make([]bnf.Grammar, len(c.G))
	gs := append([]Gram{}, c.G...) // what they hold now
	ver := make([]int, len(c.G))
	for i, g := range c.G {
		shared[i] = slackBNF(g)
	}
	reuse := make([]byte, 4096) // memory the caller uses for one input after another
	reuseBuf := &bytes.Buffer{}
	bind := oddBindings()
	wantBind := oddBindings()
	var parsers []*histParser
	var results []*histRes
	ok, refused, gens, edits := 0, 0, 0, 0

	step := func(op HOp) error {
		switch op.K {
		case 0: // generate
			gi := op.A % len(c.G)
			t, n, err := tablegen.FromGrammar(shared[gi])
			gens++
			want := isos[gi]
			if err != nil {
				if want.err != "error: "+err.Error() {
					return fmt.Errorf("generation fails with %q, alone with %q", err, want.err)
				}
				if t != nil || n != nil {
					return fmt.Errorf("error with table or names")
				}
				return nil
			}
			if want.err != "" {
				return fmt.Errorf("generation succeeds, alone it fails with %q", want.err)
			}
			if !sameTable(*t, want.table) {
				return fmt.Errorf("generated another table than alone")
			}
			if err := sameNames(*n, want.names); err != nil {
				return fmt.Errorf("generated %v", err)
			}
			results = append(results, &histRes{what: "generated table", table: *t, wantT: want.table, names: *n, want: copyNames(want.names)})
			parsers = append(parsers, &histParser{gi: gi, ver: ver[gi], g: gs[gi], p: parser.NewLL1Parser(*t, *n), table: *t, names: *n, wantT: want.table, wantN: copyNames(*n)})
		case 1: // another parser over the table of an earlier one, or over a copy with slack
			if len(parsers) == 0 {
				return nil
			}
			q := parsers[op.A%len(parsers)]
			h := *q
			if op.B%2 == 1 {
				h.table, h.slack = slackTable(h.wantT), true
				if h.tv == 0 && op.B%3 == 1 {
					h.tv = 1 + op.B/6%4
					h.table = tableVariant(h.table, h.tv)
					h.wantT = tableVariant(slackTable(h.wantT), h.tv)
				}
			}
			if op.B/4%2 == 1 && h.nv == 0 {
				h.nv = 1 + (op.A+op.B)%5
				h.names = namesVariant(h.wantN, h.nv)
				h.wantN = namesVariant(h.wantN, h.nv)
			}
			h.p = parser.NewLL1Parser(h.table, h.names)
			parsers = append(parsers, &h)
		case 10: // the caller changes a grammar of its own
			gi := op.A % len(c.G)
			g := gs[gi].clone()
			if len(g) == 0 {
				return nil
			}
			r := op.B % len(g)
			b := shared[gi].Rules[r].Tail.Sequences
			if len(b) == 0 {
				return nil
			}
			j := op.A / 2 % len(b)
			if len(b[j].Symbols) == 0 {
				return nil
			}
			k := op.B / 3 % len(b[j].Symbols)
			if _, ok := b[j].Symbols[k].(bnf.SymbolTerminal); ok || op.A%4 == 3 {
				b[j].Symbols[k], g[r].Alts[j][k] = bnf.SymbolTerminal{Name: "w"}, T("w")
			} else {
				b[j].Symbols[k], g[r].Alts[j][k] = bnf.SymbolNothing{}, Eps
			}
			if op.B >= 12 && op.A >= 4 {
				g[0].Head += "z"
				shared[gi].Rules[0].Head.Name += "z"
			}
			gs[gi] = g
			isos[gi] = isolate(g)
			ver[gi]++
			edits++
		case 11: // the caller changes a table of its own and builds a parser over it
			if len(parsers) == 0 {
				return nil
			}
			h := *parsers[op.A%len(parsers)]
			if h.tv != 0 {
				return nil
			}
			at := reflect.ValueOf(h.table).Pointer()
			h.tv = 1 + op.B%4
			h.wantT = tableVariant(slackTable(h.wantT), h.tv)
			tableVariant(h.table, h.tv)
			h.p = parser.NewLL1Parser(h.table, h.names)
			var keep []*histParser
			for _, q := range parsers { // how older parsers take it is left open
				if reflect.ValueOf(q.table).Pointer() != at {
					keep = append(keep, q)
				}
			}
			parsers = append(keep, &h)
			for _, r := range results {
				if r.table != nil && reflect.ValueOf(r.table).Pointer() == at {
					r.wantT = nil
				}
			}
			edits++
		case 9: // parse from memory used before
			if len(parsers) == 0 {
				return nil
			}
			q := parsers[op.A%len(parsers)]
			in := string(c.In[q.gi][op.B%len(c.In[q.gi])])
			if len(in) > len(reuse) {
				return nil
			}
			want, err := wantParse(q, in)
			if err != nil {
				return err
			}
			copy(reuse, in)
			reuseBuf.Reset()
			reuseBuf.WriteString(in)
			for _, src := range []any{reuse[:len(in)], reuseBuf} {
				got, err := run1(q.p, src)
				if err != nil {
					return err
				}
				if err := got.same(want); err != nil {
					return fmt.Errorf("parsing %q from memory used before gives %v than alone", in, err)
				}
			}
			if len(in) > 0 { // the same memory, another input of the same length
				alt := []byte(in)
				alt[op.A%len(alt)] ^= 1
				want, err := wantParse(q, string(alt))
				if err != nil {
					return err
				}
				copy(reuse, alt)
				copy(reuseBuf.Bytes(), alt)
				for _, src := range []any{reuse[:len(alt)], reuseBuf} {
					got, err := run1(q.p, src)
					if err != nil {
						return err
					}
					if err := got.same(want); err != nil {
						return fmt.Errorf("parsing %q from memory used before gives %v than alone", alt, err)
					}
				}
			}
		case 2, 3: // parse
			if len(parsers) == 0 {
				return nil
			}
			q := parsers[op.A%len(parsers)]
			ins := c.In[q.gi]
			in := string(ins[op.B%len(ins)])
			want, err := wantParse(q, in)
			if err != nil {
				return err
			}
			var src any = in
			// room in front of and behind the bytes belongs to the caller
			var all []byte
			var buf *bytes.Buffer
			const front = 3
			mem := func() []byte { return append(append([]byte("pre"), in...), "after"...) }
			switch op.B / 6 % 4 {
			case 1:
				all = mem()
				src = all[front : front+len(in)]
			case 2:
				all = mem()
				buf = bytes.NewBuffer(all[:front+len(in)])
				buf.Next(front)
				src = buf
			case 3:
				src = io.Reader(strings.NewReader(in))
			}
			n, nm, perr, err := parse(q.p, src)
			if err != nil {
				return err
			}
			got := outcome{}
			if perr != nil {
				got.err = "error: " + perr.Error()
				refused++
			} else {
				got.tree, got.names = snap(n), nm
				ok++
			}
			if err := got.same(want); err != nil {
				return fmt.Errorf("parsing %q gives %v than alone", in, err)
			}
			if all != nil {
				if !bytes.Equal(all, mem()) {
					return errors.New("the byte slice, or memory around it, was modified")
				}
				if buf != nil && buf.String() != in {
					return errors.New("the buffer was consumed")
				}
				for i := range all { // the caller may reuse it
					all[i] = 'x'
				}
			}
			if n != nil {
				results = append(results, &histRes{what: fmt.Sprintf("tree of %q", in), tree: n, snap: got.tree, names: nm, want: copyNames(nm)})
			}
			if op.K == 3 && nm != nil { // change the returned map
				nm[0] = "changed"
				nm[op.B] = "added"
				delete(nm, TLit)
				delete(nm, 1)
				r := results[len(results)-1]
				r.want = copyNames(nm)
				if op.A%2 == 0 { // and the tree
					spoilTree(n)
					r.snap = snap(n)
				}
			}
		case 4: // print
			gi := op.A % len(c.G)
			if s := shared[gi].String(); s != isos[gi].print {
				return fmt.Errorf("prints as %q, alone as %q", s, isos[gi].print)
			}
		case 5, 6: // text to grammar
			i := op.A % len(c.Text)
			b := bind
			if op.K == 6 {
				b = fromcst.SelfCSTtoASTBindings()
			}
			got, n, ast, err := convert(sp, b, string(c.Text[i]))
			if err != nil {
				return err
			}
			if !got.same(wantText[i]) {
				return fmt.Errorf("text %q reads as %v, alone as %v", c.Text[i], got, wantText[i])
			}
			if n != nil {
				r := &histRes{what: fmt.Sprintf("tree and grammar of %q", c.Text[i]), tree: n, snap: snap(n)}
				if ast != nil {
					r.gram, r.wantG = ast, got.g
				}
				results = append(results, r)
			}
		case 7: // parse with an empty table or a bad source
			if len(parsers) == 0 {
				return nil
			}
			q := parsers[op.A%len(parsers)]
			var src any
			if op.B%2 == 0 {
				src = (*bytes.Buffer)(nil)
			}
			if _, _, perr, err := parse(q.p, src); err != nil || perr == nil {
				return fmt.Errorf("bad source: error %v %v", perr, err)
			}
		case 12: // change what a call returned, and call again
			return changeResult(op, shared[op.A%len(c.G)], &isos[op.A%len(c.G)], sp, string(c.Text[op.A%len(c.Text)]), wantText[op.A%len(c.Text)])
		case 8: // a reader that fails
			if len(parsers) == 0 {
				return nil
			}
			q := parsers[op.A%len(parsers)]
			in := string(c.In[q.gi][op.B%len(c.In[q.gi])])
			if _, _, perr, err := parse(q.p, &chunkReader{data: in, fail: failErrs[0]}); err != nil || perr == nil {
				return fmt.Errorf("failing source: error %v %v", perr, err)
			}
		}
		return nil
	}
	after := func() error {
		for i := range shared {
			if err := intact(shared[i], gs[i]); err != nil {
				return err
			}
		}
		if !reflect.DeepEqual(bind, wantBind) {
			return fmt.Errorf("the bindings passed in were changed: %v", bind)
		}
		for _, s := range []struct{ a, b []int }{{bind.IgnoreNodeTypes, wantBind.IgnoreNodeTypes}, {bind.SymbolTerminalTypes, wantBind.SymbolTerminalTypes}} {
			if !reflect.DeepEqual(s.a[:cap(s.a)], s.b[:cap(s.b)]) {
				return fmt.Errorf("memory behind the bindings was changed")
			}
		}
		for _, q := range parsers {
			if !sameTable(q.table, q.wantT) || q.slack && !slackIntact(q.table) {
				return fmt.Errorf("the table a parser was built with was changed\ntable of %v", q.g)
			}
			if err := sameNames(q.names, q.wantN); err != nil {
				return fmt.Errorf("the names a parser was built with were changed: %v", err)
			}
		}
		for _, r := range results {
			if r.tree != nil {
				if !eqRT(snap(r.tree), r.snap) {
					return fmt.Errorf("an earlier result changed: %s", r.what)
				}
			}
			if r.want != nil {
				if err := sameNames(r.names, r.want); err != nil {
					return fmt.Errorf("names of an earlier result changed (%s): %v", r.what, err)
				}
			}
			if r.wantT != nil && !sameTable(r.table, r.wantT) {
				return fmt.Errorf("an earlier result changed: %s", r.what)
			}
			if r.gram != nil {
				if g, err := FromBNF(*r.gram); err != nil || !g.equal(r.wantG) {
					return fmt.Errorf("an earlier result changed: %s", r.what)
				}
			}
		}
		return nil
	}
	for i, op := range c.Ops {
		var err error
		printed, qerr := quiet(func() { err = step(op) })
		if qerr != nil {
			return qerr
		}
		if err == nil && printed != 0 {
			err = fmt.Errorf("%d bytes were printed", printed)
		}
		if err == nil {
			err = after()
		}
		if err != nil {
			if he, ok := err.(*harnessError); ok {
				return he
			}
			return fmt.Errorf("step %d (kind %d): %v\ngrammars %v", i, op.K, err, c.G)
		}
	}
	if ok+refused >= 3 && ok > 0 && gens > 1 {
		o.NonTrivial()
	}
	o.labels["parse accepted"] += ok
	o.labels["parse refused"] += refused
	o.labels["generations"] += gens
	o.labels["caller changed its grammar or table"] += edits
	return nil
}

// spoilTree changes the lists of children a tree hands out.
func spoilTree(n cst.Node) {
	cs := n.Childs()
	for i, k := range cs {
		spoilTree(k)
		cs[i] = cst.NewNode(4242, i, i, nil)
	}
}

// the built-in grammar and bindings as first seen by this process
var selfOnce = struct {
	sync.Once
	g    Gram
	bind fromcst.BNFCSTtoASTBindings
}{}

func selfAtFirst() (Gram, fromcst.BNFCSTtoASTBindings) {
	selfOnce.Do(func() {
		selfOnce.g, _ = FromBNF(bnf.SelfGrammar())
		selfOnce.g = selfOnce.g.clone()
		b := fromcst.SelfCSTtoASTBindings()
		b.IgnoreNodeTypes = append([]int{}, b.IgnoreNodeTypes...)
		b.SymbolTerminalTypes = append([]int{}, b.SymbolTerminalTypes...)
		m := map[string]string{}
		for k, v := range b.EscapeMapping {
			m[k] = v
		}
		b.EscapeMapping = m
		selfOnce.bind = b
	})
	return selfOnce.g, selfOnce.bind
}

// spoil changes every part of a grammar that it can reach.
func spoil(g *bnf.Grammar) {
	for i := range g.Rules {
		ss := g.Rules[i].Tail.Sequences
		for j := range ss {
			for k := range ss[j].Symbols {
				ss[j].Symbols[k] = bnf.SymbolTerminal{Name: "spoilt"}
			}
			ss[j].Symbols = append(ss[j].Symbols, bnf.SymbolTerminal{Name: "spoilt"})
		}
		g.Rules[i].Tail.Sequences = append(ss, bnf.Sequence{})
		g.Rules[i].Head.Name += "spoilt"
	}
}

func changeResult(op HOp, g bnf.Grammar, want *iso, sp parser.LL1Parser, text string, wantText textIso) error {
	wantSelf, wantBind := selfAtFirst()
	switch op.B % 5 {
	case 0, 1:
		for i := 0; i < 2; i++ {
			self := bnf.SelfGrammar()
			now, err := FromBNF(self)
			if err != nil || !now.equal(wantSelf) {
				return fmt.Errorf("the built-in grammar is no longer what it was: %v", now)
			}
			spoil(&self)
		}
	case 2:
		for i := 0; i < 2; i++ {
			b := fromcst.SelfCSTtoASTBindings()
			if !reflect.DeepEqual(b, wantBind) {
				return fmt.Errorf("the built-in bindings are no longer what they were: %v", b)
			}
			for k := range b.EscapeMapping {
				b.EscapeMapping[k] = "spoilt"
			}
			b.EscapeMapping["spoilt"] = "x"
			for _, s := range [][]int{b.IgnoreNodeTypes, b.SymbolTerminalTypes} {
				for k := range s {
					s[k] = 4711
				}
				_ = append(s, 4712)
			}
		}
	case 3:
		for i := 0; i < 2; i++ {
			got, _, ast, err := convert(sp, fromcst.SelfCSTtoASTBindings(), text)
			if err != nil {
				return err
			}
			if !got.same(wantText) {
				return fmt.Errorf("text %q reads as %v, alone as %v", text, got, wantText)
			}
			if ast != nil {
				spoil(ast)
			}
		}
	case 4:
		for i := 0; i < 2; i++ {
			t, n, err := tablegen.FromGrammar(g)
			if (err == nil) != (want.err == "") || err != nil && "error: "+err.Error() != want.err {
				return fmt.Errorf("generation gives %v, alone %q", err, want.err)
			}
			if err != nil {
				return nil
			}
			if !sameTable(*t, want.table) {
				return fmt.Errorf("generated another table than alone")
			}
			if err := sameNames(*n, want.names); err != nil {
				return fmt.Errorf("generated %v", err)
			}
			for _, row := range *t {
				for k, ops := range row {
					for j := range ops {
						ops[j] = slackOp
					}
					row[k] = append(ops, slackOp)
				}
				row[1] = nil
			}
			for k := range *n {
				(*n)[k] = "spoilt"
			}
		}
	}
	return nil
}

// ---- C13

type CaseConc struct {
	G    Gram    `json:"g"`
	G2   Gram    `json:"g2"`
	In   []Raw   `json:"in"`
	Text Raw     `json:"text"`
	Seq  [][]HOp `json:"seq"` // per goroutine
	Tiny bool    `json:"tiny,omitempty"`
	Rep  int     `json:"rep,omitempty"` // how often each call is repeated
	Nil  bool    `json:"nil,omitempty"` // empty entries of the shared table are nil
	Ret  bool    `json:"ret,omitempty"` // the shared name map is like one returned by a parse
}

var tinyGram = Gram{
	{"S", [][]Sym{{T("ab"), N("S")}, {T("cd"), N("S")}, {T("ef"), N("R")}, {T("g"), N("R")}, {T("i"), N("S"), T("j")}, {Eps}}},
	{"R", [][]Sym{{T("kl")}, {T("mn"), N("R")}, {Eps}}},
}

type concEnv struct {
	c      *CaseConc
	gram   bnf.Grammar
	gram2  bnf.Grammar
	p, q   parser.LL1Parser // over the same table and names
	table  Table
	names  Names
	sp     parser.LL1Parser
	bind   fromcst.BNFCSTtoASTBindings
	tree   cst.Node // of text, shared
	intree cst.Node // of an input, shared
	slices [][]byte
	eol    parser.LL1Parser // a hand-written table with ends of lines
	esc    cst.Node         // of escText, shared
	set    byteset.ByteSet
	flawed []bnf.Grammar
}

const escText = "<a> ::= \"\\t\\n\\r\\\"\\\\\" '\\t' \"\" | <b>\n"

// concFlawed are grammars no table can be generated for.
func concFlawed() []bnf.Grammar {
	return []bnf.Grammar{
		{},
		Gram{{"S", [][]Sym{{T("a")}}}, {"S", [][]Sym{{T("b")}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a"), N("U")}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a"), Eps}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a")}, {}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a")}, {T("")}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a")}, {T("\x00")}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a")}, {Sym{K: KMiss}}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{T("a")}, {T("a")}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{N("S"), T("a")}, {Eps}}}}.ToBNF(),
		Gram{{"S", [][]Sym{{Eps}, {Eps}}}}.ToBNF(),
	}
}

func newConcEnv(c *CaseConc) (*concEnv, error) {
	e := &concEnv{c: c, gram: c.G.ToBNF(), gram2: c.G2.ToBNF(), bind: oddBindings()}
	t, n, err := tablegen.FromGrammar(c.G.clone().ToBNF())
	if err != nil {
		return nil, err
	}
	e.table, e.names = *t, *n
	if c.Nil {
		tableVariant(e.table, 3)
	}
	if c.Ret {
		e.names = withBuiltin(e.names)
	}
	e.p, e.q = parser.NewLL1Parser(e.table, e.names), parser.NewLL1Parser(e.table, e.names)
	if e.sp, _, _, err = buildBNF(bnf.SelfGrammar()); err != nil {
		return nil, err
	}
	if e.tree, _, err = e.sp.Parse(string(c.Text)); err != nil {
		return nil, fmt.Errorf("text refused: %v", err)
	}
	if e.esc, _, err = e.sp.Parse(escText); err != nil {
		return nil, fmt.Errorf("text refused: %v", err)
	}
	if e.sp, _, _, err = buildBNF(bnf.SelfGrammar()); err != nil { // unused so far
		return nil, err
	}
	e.eol = parser.NewLL1Parser(Table{0: {
		'a': {parser.OpTerminal("a"), parser.OpNonTerminal(-2), parser.OpNonTerminal(0)}, 0: {}, 'x': {parser.OpNonTerminal(7)}, '-': {parser.OpNonTerminal(-5)},
	}}, Names{5: "five"})
	e.set = byteset.New(1, 2, 200)
	e.flawed = concFlawed()
	for _, in := range c.In {
		e.slices = append(e.slices, []byte(in))
		if e.intree == nil {
			// from another parser, so that e.p and e.q are untouched so far
			x, _, err := parser.NewLL1Parser(*t, copyNames(*n)).Parse(string(in))
			if err == nil {
				e.intree = x
			}
		}
	}
	return e, nil
}

const concOps = 21

// do performs one operation and returns something to compare.
func (e *concEnv) do(op HOp) (any, error) {
	c := e.c
	i := op.A % len(c.In)
	switch op.K % concOps {
	case 0:
		return run1(e.p, string(c.In[i]))
	case 1:
		return run1(e.q, string(c.In[i]))
	case 2:
		return run1(e.p, e.slices[i])
	case 3:
		return run1(parser.NewLL1Parser(e.table, e.names), bytes.NewBufferString(string(c.In[i])))
	case 4:
		t, n, err := tablegen.FromGrammar(e.gram)
		if err != nil {
			return err.Error(), nil
		}
		return []any{*t, *n}, nil
	case 5:
		t, n, err := tablegen.FromGrammar(e.gram2)
		if err != nil {
			return err.Error(), nil
		}
		return []any{*t, *n}, nil
	case 6:
		return e.gram.String() + "\n" + e.gram2.String(), nil
	case 7:
		ast, err := e.bind.ToAST(e.tree, string(c.Text))
		if err != nil {
			return err.Error(), nil
		}
		return *ast, nil
	case 8:
		return run1(e.sp, string(c.Text))
	case 9: // use the map a parse returned
		n, nm, err := e.p.Parse(string(c.In[i]))
		if err != nil {
			return err.Error(), nil
		}
		(*nm)[op.B] = "mine"
		delete(*nm, TLit)
		return []any{snap(n), copyNames(*nm)}, nil
	case 11: // the built-in grammar and bindings
		self := bnf.SelfGrammar()
		b := fromcst.SelfCSTtoASTBindings()
		r := []any{self.String(), fmt.Sprint(b)}
		if op.A%2 == 0 {
			t, n, err := tablegen.FromGrammar(self)
			if err != nil {
				return err.Error(), nil
			}
			r = append(r, *t, *n)
		}
		spoil(&self)
		b.EscapeMapping["spoilt"] = "x"
		return r, nil
	case 12: // no sources
		return run1(e.p, []any{nil, 5, (*bytes.Buffer)(nil), []string{"a"}}[op.B%4])
	case 13: // sources that fail
		return run1(e.q, &chunkReader{data: string(c.In[i]), chunks: []int{op.B + 1}, fail: failErrs[(op.A+op.B)%len(failErrs)], with: op.A%2 == 0})
	case 14: // other name maps
		return run1(parser.NewLL1Parser(e.table, []Names{nil, {}, {0: "x"}, {77: "y"}}[op.B%4]), string(c.In[i]))
	case 15: // no tables
		return run1(parser.NewLL1Parser([]Table{nil, {}, {1: {}}, {0: {}}}[op.B%4], e.names), string(c.In[i]))
	case 16: // no grammars
		t, n, err := tablegen.FromGrammar(e.flawed[(op.A*4+op.B)%len(e.flawed)])
		if err == nil || t != nil || n != nil {
			return "accepted", nil
		}
		return err.Error(), nil
	case 17: // ends of lines
		return run1(e.eol, []string{"a\n", "a\r\na\n", "a\ra", "ab", "a\na\r\n", "x", "-", "a\n\n"}[(op.A*4+op.B)%8])
	case 18: // bindings that do not fit, and escapes
		b := e.bind
		switch op.B % 4 {
		case 1:
			b.EscapeMapping = map[string]string{"t": "\t"}
		case 2:
			b.RuleHeadType = 9999
		case 3:
			b.SymbolTerminalTypes = nil
		}
		ast, err := b.ToAST(e.esc, escText)
		if err != nil {
			return err.Error(), nil
		}
		return *ast, nil
	case 19: // printing and kinds
		r := []any{bnf.Grammar{}.String(), bnf.Rule{}.String()}
		for _, s := range []bnf.Symbol{bnf.SymbolNothing{}, bnf.SymbolTerminal{Name: "a\"'\\\n"}, bnf.SymbolTerminal{Name: "\""}, bnf.SymbolNonTerminal{Name: "n"}} {
			r = append(r, s.String(), s.Type())
		}
		return r, nil
	case 20: // sets of one's own
		s := byteset.New(byte(op.A), 3, 2)
		u := s.Union(e.set)
		s.Remove(3)
		s.Add(9)
		return []any{s.String(), u.String(), u.Len(), u.Bytes(), u.Contains(200), u.Equal(s), u.IsSuperSet(e.set), e.set.IsSubSet(u)}, nil
	default:
		if e.intree == nil {
			return nil, nil
		}
		v := &countVisitor{}
		cst.Walk(v, e.intree)
		return v.n, nil
	}
}

type countVisitor struct{ n int }

func (v *countVisitor) Visit(n cst.Node) cst.Visitor {
	v.n += 1 + n.Pos() + n.End()
	return v
}

func sameRes(got, want any) error {
	if a, ok := got.(outcome); ok {
		b, ok := want.(outcome)
		if !ok {
			return errors.New("another kind of result")
		}
		return a.same(b)
	}
	if !reflect.DeepEqual(got, want) {
		return fmt.Errorf("%v instead of %v, other", got, want)
	}
	return nil
}

func concCheck(c *CaseConc, o *Obs) error {
	e, err := newConcEnv(c)
	if err != nil {
		o.Label("refused by the library")
		return nil
	}
	for _, r := range e.table {
		for _, ops := range r {
			if len(ops) > 64 {
				o.Label("grammar: >64 symbols in an alternative")
			}
		}
	}
	got := make([][]any, len(c.Seq))
	errs := make([]error, len(c.Seq))
	var start, done sync.WaitGroup
	start.Add(1)
	for g := range c.Seq {
		done.Add(1)
		go func(g int) {
			defer done.Done()
			defer func() {
				if r := recover(); r != nil {
					b := make([]byte, 4000)
					errs[g] = fmt.Errorf("panic: %v\n%s", r, b[:runtime.Stack(b, false)])
				}
			}()
			start.Wait()
			for _, op := range c.Seq[g] {
				var first any
				for i := 0; i <= c.Rep; i++ {
					r, err := e.do(op)
					if err != nil {
						errs[g] = err
						return
					}
					if i == 0 {
						first = r
						got[g] = append(got[g], r)
						continue
					}
					if err := sameRes(r, first); err != nil {
						errs[g] = fmt.Errorf("goroutine %d: call %v: repetition %d: %v than before", g, op, i, err)
						return
					}
				}
			}
		}(g)
	}
	start.Done()
	done.Wait()
	for _, err := range errs {
		if err != nil {
			return fmt.Errorf("%v\ngrammar %v", err, c.G)
		}
	}
	// what each call returns alone, on fresh objects
	f, err := newConcEnv(c)
	if err != nil {
		return fmt.Errorf("building again fails: %v", err)
	}
	kinds := map[int]bool{}
	for g := range c.Seq {
		for k, op := range c.Seq[g] {
			kinds[op.K%concOps] = true
			o.Label("operation %d", op.K%concOps)
			want, err := f.do(op)
			if err != nil {
				return fmt.Errorf("alone: %v", err)
			}
			if err := sameRes(got[g][k], want); err != nil {
				return fmt.Errorf("goroutine %d call %d (%v): %v than alone\ngrammar %v", g, k, op, err, c.G)
			}
		}
	}
	if c.Rep > 0 {
		o.Label("hammer")
		if c.Tiny {
			o.Label("hammer: short calls")
		}
	}
	if len(c.Seq) >= 2 && len(kinds) >= 3 || c.Rep > 0 {
		o.NonTrivial()
	}
	return nil
}

func init() {
	register(&Prop{
		ID:       "C12",
		Rule:     "a case is a history of 6-21 calls (generate, build another parser, some with incomplete names or tables, parse from four kinds of source or from memory used before, change a returned name map, table or grammar, the built-in grammar or bindings handed out, or a grammar or a table of the caller's, print, read text with two bindings, bad and failing sources) over 1-3 grammars, often relatives with the same names; after every call all arguments (with sentinels in their spare capacity), all earlier results and the process output are inspected; non-trivial: at least three parses, one accepted, and two generations",
		Quick:    3000,
		Thorough: 60000,
		New:      func() any { return &CaseHist{} },
		Gen:      genHist,
		Check:    func(ci any, o *Obs) error { return checkHist(ci.(*CaseHist), o) },
	})
	register(&Prop{
		ID:       "C13",
		Rule:     "a case is an LL(1) grammar, a second one, inputs, a BNF text, and 2-8 goroutines with 2-6 calls each on shared objects never used before (one parser, two parsers over one table and name map, grammars, a tree, unsorted bindings, byte slices), or 2-4 goroutines that repeat one or two calls up to 300 times, started together under the race detector; results are compared with those of the same calls alone; non-trivial: at least three kinds of calls, or repetition",
		Quick:    1000,
		Thorough: 15000,
		Race:     true,
		HeapMB:   3000,
		CPUSec:   120,
		New:      func() any { return &CaseConc{} },
		Gen: func(t *rapid.T) any {
			if pct(t, 2) { // short calls with different outcomes, very often
				c := &CaseConc{G: tinyGram.clone(), G2: simple.clone(), Text: "<a> ::= \"b\"\n", Tiny: true}
				words := []string{"ab", "cd", "ef", "g", "ax", "cx", "ex", "e", "", "x", "abab", "ababx", "i", "ij", "iabj", "ix", "abcd"}
				for i := 0; i < 4; i++ {
					c.In = append(c.In, Raw(words[uni(t, len(words))]))
				}
				c.Rep = rng(t, 500, 2000)
				k := oneOf(t, 0, 0, 0, 2, 3)
				for i := rng(t, 3, 6); i > 0; i-- {
					c.Seq = append(c.Seq, []HOp{{k, i, uni(t, 4)}})
				}
				return c
			}
			c := &CaseConc{G: genLL1(t, GOpt{Small: true, Prod: true})}
			if pct(t, 70) {
				c.G2 = genLL1(t, GOpt{Small: true})
			} else {
				c.G2 = genConflict(t, GOpt{Small: true})
			}
			a := analyze(c.G)
			for i := 0; i < 4; i++ {
				if a.prod[0] && i < 3 {
					c.In = append(c.In, Raw(genSentence(t, a, oneOf(t, 3, 10, 30))))
				} else {
					c.In = append(c.In, Raw(genInput(t, a, c.G.bytesOf())))
				}
			}
			fat := uni(t, 60) == 0
			if fat {
				l := genLong(t, true)
				if pct(t, 50) {
					l = genFat(t)
				}
				if len(l.Long)+len(l.In) > 1 {
					c.G, c.In = l.G, longTexts(l)
					a = analyze(c.G)
				}
			}
			c.Text = Raw(layout(t, genGram(t, GOpt{BNF: true, Small: true, MaxR: 2})))
			c.Ret, c.Nil = pct(t, 15), pct(t, 25)
			if a.prod[0] && !fat && pct(t, 6) { // few calls, often
				c.Rep = rng(t, 50, 300)
				for i := range c.In {
					c.In[i] = Raw(genSentence(t, a, 6))
					if i > 0 {
						c.In[i] = Raw(mutate(t, string(c.In[i]), c.G.bytesOf()))
					}
				}
				for i := rng(t, 2, 4); i > 0; i-- {
					s := []HOp{{oneOf(t, 0, 0, 0, 1, 2, 3, uni(t, concOps)), uni(t, 4), uni(t, 4)}}
					if pct(t, 30) {
						s = append(s, HOp{uni(t, 4), uni(t, 4), uni(t, 4)})
					}
					c.Seq = append(c.Seq, s)
				}
				return c
			}
			n := rng(t, 2, 8)
			same := pct(t, 40) // all goroutines start with the same call
			first := HOp{uni(t, concOps), uni(t, 4), uni(t, 4)}
			for i := 0; i < n; i++ {
				var s []HOp
				if same {
					s = append(s, first)
				}
				for k := rng(t, 2, 6); k > 0; k-- {
					s = append(s, HOp{uni(t, concOps), uni(t, 4), uni(t, 4)})
				}
				c.Seq = append(c.Seq, s)
			}
			return c
		},
		Check:  func(ci any, o *Obs) error { return concCheck(ci.(*CaseConc), o) },
		Assume: []string{"data races are those the Go race detector sees in the executed schedules"},
	})
}
