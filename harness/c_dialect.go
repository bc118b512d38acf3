package main

// C20, continued: notations of one's own. A dialect is a grammar for writing
// grammars with its own tokens, its own order of head and tail, comments that
// hold whole rules, and bindings that tell what is what.

import (
	"fmt"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"pgregory.net/rapid"
)

type Dialect struct {
	Def    Raw    `json:"def"`
	Or     Raw    `json:"or"`
	Open   Raw    `json:"open"`
	Close  Raw    `json:"close"`
	End    Raw    `json:"end"`
	COpen  Raw    `json:"copen"`
	CClose Raw    `json:"cclose"`
	Esc    Raw    `json:"esc"`
	QOpen  []Raw  `json:"qopen"`
	QClose []Raw  `json:"qclose"`
	Chars  []Raw  `json:"chars"`
	NameX  Raw    `json:"namex,omitempty"` // more bytes of names, if names are closed
	Escs   []Raw  `json:"escs"`
	Map    []Raw  `json:"map"`              // what each of Escs stands for
	Miss   []bool `json:"miss"`             // ... or that it has no mapping
	Rev    bool   `json:"rev,omitempty"`    // tail before head
	Split  bool   `json:"split,omitempty"`  // heads and references of different types
	Wrap   int    `json:"wrap,omitempty"`   // levels between the interesting types
	IgnGap bool   `json:"igngap,omitempty"` // spaces are ignored, not only the comments in them
	NoHead bool   `json:"nohead,omitempty"` // bindings with a head type no tree has
	NoTail bool   `json:"notail,omitempty"`
	Deep   bool   `json:"deep,omitempty"`   // long escapes have a node of their own inside
	NoName bool   `json:"noname,omitempty"` // bindings with a name type for references no tree has
	NoText int    `json:"notext,omitempty"` // quotes of this kind, from 1, are not bound
	Perm   []int  `json:"perm"`             // sort keys that number the rules
	Ign    []int  `json:"ign"`              // more ignored types, none in any tree
}

type CaseDialect struct {
	D    Dialect `json:"d"`
	Text Raw     `json:"text"`
	Want Gram    `json:"want"`
	Miss bool    `json:"missing,omitempty"`  // an escape outside comments has no mapping
	Kind bool    `json:"kind,omitempty"`     // a symbol outside comments is of no bound kind
	Coms int     `json:"comments,omitempty"` // rules in comments
}

const nameBytes = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-"

// grammar is the dialect's own grammar, rules in the drawn order.
func (d *Dialect) grammar() Gram {
	var g Gram
	add := func(h string, alts ...[]Sym) { g = append(g, Rule{Raw(h), alts}) }
	seq := func(s ...Sym) []Sym { return s }
	chain := func(from, to string) Sym { // a reference through d.Wrap wrappers
		for i := 0; i < d.Wrap; i++ {
			w := fmt.Sprintf("%s-w%d", from, i)
			n := N(to)
			if i > 0 {
				n = N(fmt.Sprintf("%s-w%d", from, i-1))
			}
			add(w, seq(n))
		}
		if d.Wrap == 0 {
			return N(to)
		}
		return N(fmt.Sprintf("%s-w%d", from, d.Wrap-1))
	}
	tok := func(s Raw) []Sym {
		if s == "" {
			return nil
		}
		return seq(T(string(s)))
	}
	add("file", seq(N("gap"), N("items")))
	rule := chain("rule", "rule")
	add("items", seq(Eps), seq(N("item"), N("items")))
	add("item", seq(rule, T(string(d.End)), N("gap")))
	name := "name"
	if d.Split {
		name = "head-name"
	}
	head := append(append(tok(d.Open), chain("head", name)), tok(d.Close)...)
	expr := chain("expr", "expr")
	if d.Rev {
		add("rule", append(append(seq(expr, T(string(d.Def)), N("gap")), head...), N("gap")))
	} else {
		add("rule", append(head, N("gap"), T(string(d.Def)), N("gap"), expr))
	}
	list := chain("list", "list")
	add("expr", seq(list, N("expr-tail")))
	add("expr-tail", seq(Eps), seq(T(string(d.Or)), N("gap"), list, N("expr-tail")))
	sym := chain("sym", "sym")
	add("list", seq(sym, N("gap"), N("list-tail")))
	add("list-tail", seq(Eps), seq(sym, N("gap"), N("list-tail")))
	alts := [][]Sym{append(append(tok(d.Open), chain("ref", "name")), tok(d.Close)...)}
	for i := range d.QOpen {
		text, char := fmt.Sprintf("text%d", i), fmt.Sprintf("char%d", i)
		alts = append(alts, seq(T(string(d.QOpen[i])), N(text), T(string(d.QClose[i]))))
		add(text, seq(Eps), seq(N(char), N(text)))
		cs := [][]Sym{}
		for _, c := range d.charsFor(i) {
			cs = append(cs, seq(T(string(c))))
		}
		add(char, append(cs, seq(N("escape")))...)
	}
	add("sym", alts...)
	add("escape", seq(T(string(d.Esc)), N("escaped")))
	es, more := [][]Sym{}, map[byte][][]Sym{}
	for _, e := range d.Escs {
		if len(e) > 1 {
			more[e[0]] = append(more[e[0]], seq(T(string(e[1:]))))
		}
	}
	for _, e := range d.Escs {
		if r := more[e[0]]; len(r) == 0 || len(r) == 1 && !d.Deep {
			es = append(es, seq(T(string(e))))
		} else if r != nil && string(r[0][0].S) == string(e[1:]) {
			tail := fmt.Sprintf("escaped-%02x", e[0])
			es = append(es, seq(T(string(e[:1])), N(tail)))
			add(tail, r...)
		}
	}
	add("escaped", es...)
	nc := [][]Sym{}
	for _, b := range []byte(d.nameBytes()) {
		nc = append(nc, seq(T(string([]byte{b}))))
	}
	add("name", seq(N("name-char"), N("name-tail")))
	if d.Split {
		add("head-name", seq(N("name-char"), N("name-tail")))
	}
	add("name-tail", seq(Eps), seq(N("name-char"), N("name-tail")))
	add("name-char", nc...)
	add("gap", seq(Eps), seq(T(" "), N("gap")), seq(T("\n"), N("gap")), seq(N("comment"), N("gap")))
	add("comment", seq(T(string(d.COpen)), N("gap"), N("remarks"), T(string(d.CClose))))
	add("remarks", seq(Eps), seq(N("item"), N("remarks")))
	// file stays first, the others by their keys
	h := Gram{g[0]}
	rest := g[1:]
	used := make([]bool, len(rest))
	for range rest {
		best := -1
		for i := range rest {
			if !used[i] && (best < 0 || d.key(i) < d.key(best)) {
				best = i
			}
		}
		used[best] = true
		h = append(h, rest[best])
	}
	return h
}

func (d *Dialect) key(i int) int {
	if len(d.Perm) == 0 {
		return i
	}
	return d.Perm[i%len(d.Perm)]
}

// nameBytes are the bytes names consist of.
func (d *Dialect) nameBytes() string {
	if d.Close == "" {
		return nameBytes
	}
	return nameBytes + string(d.NameX)
}

// charsFor are the characters that may stand plainly in quotes of a kind.
func (d *Dialect) charsFor(i int) []Raw {
	var r []Raw
	for _, c := range d.Chars {
		if c[0] != d.QClose[i][0] && c[0] != d.Esc[0] {
			r = append(r, c)
		}
	}
	return r
}

func (d *Dialect) bindings(g Gram) fromcst.BNFCSTtoASTBindings {
	num := map[string]int{}
	for i, r := range g {
		num[string(r.Head)] = i
	}
	b := fromcst.BNFCSTtoASTBindings{
		RuleType:                num["rule"],
		RuleHeadType:            num["name"],
		RuleTailType:            num["expr"],
		ExpressionSequencesType: num["list"],
		SequencesSymbolType:     num["sym"],
		SymbolNonTerminalType:   num["name"],
		EscapeCharacterType:     num["escaped"],
		EscapeMapping:           map[string]string{},
	}
	if d.Split {
		b.RuleHeadType = num["head-name"]
	}
	if d.NoHead {
		b.RuleHeadType = len(g) + 3
	}
	if d.NoTail {
		b.RuleTailType = len(g) + 4
	}
	if d.NoName {
		b.SymbolNonTerminalType = len(g) + 5
	}
	for i := range d.QOpen {
		if i == d.NoText-1 {
			continue
		}
		b.SymbolTerminalTypes = append(b.SymbolTerminalTypes, num[fmt.Sprintf("text%d", i)])
	}
	for i, e := range d.Escs {
		if !d.Miss[i] {
			b.EscapeMapping[string(e)] = string(d.Map[i])
		}
	}
	for i, x := range d.Ign {
		if i%2 == 0 {
			b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, x)
		}
	}
	b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, num["comment"])
	if d.IgnGap {
		b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, num["gap"])
	}
	for i, x := range d.Ign {
		if i%2 == 1 {
			b.IgnoreNodeTypes = append(b.IgnoreNodeTypes, x)
		}
	}
	return b
}

func checkDialect(c *CaseDialect, o *Obs) error {
	d := &c.D
	if len(d.QOpen) == 0 || len(d.QOpen) != len(d.QClose) || len(d.Escs) == 0 || len(d.Escs) != len(d.Map) || len(d.Escs) != len(d.Miss) {
		return bug("malformed dialect")
	}
	g := d.grammar()
	p, _, _, err := build(g)
	if err != nil {
		return fmt.Errorf("no table for the dialect's grammar: %v\n%v", err, g)
	}
	text := string(c.Text)
	n, _, perr, err := parse(p, text)
	if err != nil {
		return err
	}
	if perr != nil {
		return fmt.Errorf("the dialect's parser refuses %q: %v\n%v", text, perr, g)
	}
	b := d.bindings(g)
	ast, cerr := b.ToAST(n, text)
	o.NonTrivial()
	o.Label("notation of one's own")
	if c.Coms > 0 {
		o.Label("notation: rules in ignored comments")
	}
	if d.Rev {
		o.Label("notation: tail before head")
	}
	if c.Miss || c.Kind || d.NoHead || d.NoTail {
		o.Label("notation: conversion must fail")
		if cerr == nil {
			return fmt.Errorf("conversion of %q succeeds although %s\nbindings %+v\n%v", text, why(c), b, g)
		}
		return nil
	}
	if cerr != nil {
		return fmt.Errorf("conversion of %q fails: %v\nbindings %+v\n%v", text, cerr, b, g)
	}
	if ast == nil {
		return fmt.Errorf("neither grammar nor error")
	}
	got, err := FromBNF(*ast)
	if err != nil {
		return err
	}
	if !got.equal(c.Want) {
		return fmt.Errorf("text %q converts to\n%v\nwant\n%v\nbindings %+v\n%v", text, got, c.Want, b, g)
	}
	return checkParts(n, text, b, got)
}

func why(c *CaseDialect) string {
	if c.Miss {
		return "an escape has no mapping"
	}
	if c.Kind {
		return "a symbol is of no bound kind"
	}
	return "the tree has no node of the head's or the tail's type"
}

// ---------------------------------------------------------------- generator

func genDialect(t *rapid.T) *CaseDialect {
	c := &CaseDialect{}
	d := &c.D
	// tokens begin with distinct bytes outside names and gaps
	pool := []byte("!#$%&()*+,./:;=?@[]^_{|}~<>'\"\\`")
	pool = append(pool, 0x01, 0x09, 0x0d, 0x7f, 0x80, 0xc3, 0xff)
	order := perm(t, len(pool))
	next := 0
	tok := func() Raw {
		s := Raw([]byte{pool[order[next]]})
		next++
		for k := oneOf(t, 0, 0, 0, 1, 2, 4); k > 0; k-- {
			s += Raw([]byte{oneOf[byte](t, '=', ':', 'a', ' ', '\n', '|', 0xa9, '<', '0')})
		}
		return s
	}
	d.Def, d.Or, d.Open, d.End, d.COpen, d.CClose, d.Esc = tok(), tok(), tok(), tok(), tok(), tok(), tok()
	if pct(t, 60) {
		d.Close = tok()
	}
	for k := oneOf(t, 1, 2, 2, 3, 3, 6, 9); k > 0; k-- {
		q := tok()
		d.QOpen = append(d.QOpen, q)
		if pct(t, 70) {
			d.QClose = append(d.QClose, q)
		} else {
			d.QClose = append(d.QClose, tok())
		}
	}
	if d.Close != "" && pct(t, 50) {
		for _, b := range []byte(" \n\t\"'<>\\_.%\x01\r\x80\xc3\xa9\xff") {
			if b != d.Close[0] && pct(t, 30) {
				d.NameX += Raw([]byte{b})
			}
		}
	}
	seen := [256]bool{}
	d.Chars = []Raw{"a", "b", "n", "0", " "}
	for _, x := range d.Chars {
		seen[x[0]] = true
	}
	for k := rng(t, 0, 12); k > 0; k-- {
		x := Raw([]byte{byte(rng(t, 1, 255))})
		if pct(t, 50) {
			x = Raw([]byte{pool[uni(t, len(pool))]})
		}
		if pct(t, 20) {
			x += oneOf(t, Raw("\xa9"), "bc", "\x00", "\n", x)
		}
		if !seen[x[0]] {
			seen[x[0]] = true
			d.Chars = append(d.Chars, x)
		}
	}
	seen = [256]bool{}
	for k := rng(t, 1, 5); k > 0; k-- {
		e := Raw([]byte{oneOf(t, byte('t'), 'n', 'r', '"', '\\', 'x', '0', ' ', '<', 0xff)})
		if seen[e[0]] {
			continue
		}
		seen[e[0]] = true
		es := []Raw{e}
		switch weighted(t, 65, 20, 15) {
		case 1:
			es[0] += oneOf(t, Raw("0"), "A", " ", "\\", "\"", "n", "41", "ewline", "\xff")
		case 2: // a family
			es = nil
			for _, x := range []Raw{"0", "1a", "n", e, "\n"} {
				if pct(t, 60) && (x != e || x[0] != 'n' && x[0] != '0') {
					es = append(es, e+x)
				}
			}
		}
		for _, e := range es {
			d.Escs = append(d.Escs, e)
			d.Map = append(d.Map, oneOf(t, Raw("\t"), "\n", "\"", "\\", "", "XY", "\x00", "\xff\x80", e, d.Esc, d.Esc+e, d.QClose[0]))
			d.Miss = append(d.Miss, pct(t, 8))
		}
	}
	if len(d.Escs) == 0 {
		d.Escs, d.Map, d.Miss = []Raw{"t"}, []Raw{"\t"}, []bool{false}
	}
	d.Deep = pct(t, 40)
	d.Rev, d.Split, d.IgnGap = pct(t, 35), pct(t, 40), pct(t, 30)
	if d.Rev {
		d.Split = true // or the first name below a rule would be in its tail
	}
	d.Wrap = oneOf(t, 0, 0, 0, 1, 2)
	d.NoHead, d.NoTail, d.NoName = pct(t, 3), pct(t, 3), pct(t, 3)
	if pct(t, 5) {
		d.NoText = 1 + uni(t, len(d.QOpen))
	}
	if pct(t, 75) {
		for k := rng(t, 5, 40); k > 0; k-- {
			d.Perm = append(d.Perm, uni(t, 100))
		}
	}
	d.Ign = []int{}
	for k := oneOf(t, 0, 0, 1, 2, 4, 9); k > 0; k-- {
		d.Ign = append(d.Ign, oneOf(t, 999, 1<<40, -2, -77, 70+k, 1000-k))
	}

	w := &dialectWriter{t: t, d: d, c: c, left: 12}
	sb := &strings.Builder{}
	w.gap(sb, false)
	for k := oneOf(t, 1, 1, 2, 3, 5, 8); k > 0; k-- {
		c.Want = append(c.Want, w.item(sb, false))
	}
	c.Text = Raw(sb.String())
	return c
}

type dialectWriter struct {
	t    *rapid.T
	d    *Dialect
	c    *CaseDialect
	left int // comments left
}

func (w *dialectWriter) gap(sb *strings.Builder, com bool) {
	for k := oneOf(w.t, 0, 0, 0, 1, 1, 2, 4); k > 0; k-- {
		switch weighted(w.t, 60, 20, 20) {
		case 0:
			sb.WriteByte(' ')
		case 1:
			sb.WriteByte('\n')
		default:
			if w.left > 0 {
				w.left--
				sb.WriteString(string(w.d.COpen))
				w.gap(sb, true)
				for k := oneOf(w.t, 0, 1, 1, 2); k > 0 && w.left > 0; k-- {
					w.c.Coms++
					w.item(sb, true)
				}
				sb.WriteString(string(w.d.CClose))
			}
		}
	}
}

func (w *dialectWriter) name() string {
	b := make([]byte, oneOf(w.t, 1, 1, 2, 3, 9))
	for i := range b {
		b[i] = nameBytes[uni(w.t, len(nameBytes))]
		if all := w.d.nameBytes(); len(all) > len(nameBytes) && pct(w.t, 35) {
			b[i] = all[len(nameBytes)+uni(w.t, len(all)-len(nameBytes))]
		}
	}
	return string(b)
}

func (w *dialectWriter) item(sb *strings.Builder, com bool) Rule {
	d, r := w.d, Rule{}
	str := func(s Raw) { sb.WriteString(string(s)) }
	head := func() {
		n := w.name()
		r.Head = Raw(n)
		str(d.Open)
		str(Raw(n))
		str(d.Close)
		w.gap(sb, com)
	}
	if !d.Rev {
		head()
		str(d.Def)
		w.gap(sb, com)
	}
	for j, n := 0, oneOf(w.t, 1, 1, 2, 3, 5); j < n; j++ {
		if j > 0 {
			str(d.Or)
			w.gap(sb, com)
		}
		alt := []Sym{}
		for k := oneOf(w.t, 1, 1, 2, 3, 6); k > 0; k-- {
			alt = append(alt, w.sym(sb, com))
			w.gap(sb, com)
		}
		r.Alts = append(r.Alts, alt)
	}
	if d.Rev {
		str(d.Def)
		w.gap(sb, com)
		head()
	}
	str(d.End)
	w.gap(sb, com)
	return r
}

func (w *dialectWriter) sym(sb *strings.Builder, com bool) Sym {
	d := w.d
	if pct(w.t, 35) {
		n := w.name()
		sb.WriteString(string(d.Open) + n + string(d.Close))
		w.c.Kind = w.c.Kind || d.NoName && !com
		return N(n)
	}
	q := uni(w.t, len(d.QOpen))
	w.c.Kind = w.c.Kind || q == d.NoText-1 && !com
	cs := d.charsFor(q)
	sb.WriteString(string(d.QOpen[q]))
	v := ""
	for k := oneOf(w.t, 0, 1, 1, 2, 3, 7); k > 0; k-- {
		if pct(w.t, 35) {
			e := uni(w.t, len(d.Escs))
			sb.WriteString(string(d.Esc) + string(d.Escs[e]))
			if d.Miss[e] {
				if !com {
					w.c.Miss = true
				}
			} else {
				v += string(d.Map[e])
			}
			continue
		}
		x := string(cs[uni(w.t, len(cs))])
		sb.WriteString(x)
		v += x
	}
	sb.WriteString(string(d.QClose[q]))
	if v == "" {
		return Eps
	}
	return T(v)
}
