package main

// Reference model of grammars: an independent representation, the textbook
// FIRST/FOLLOW/LL(1) analysis over it, and conversion to the library's types.

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf"
)

// Raw is a byte string that survives JSON.
type Raw string

func (r Raw) MarshalText() ([]byte, error) { return []byte(strconv.QuoteToASCII(string(r))), nil }
func (r *Raw) UnmarshalText(b []byte) error {
	s, err := strconv.Unquote(string(b))
	*r = Raw(s)
	return err
}

const (
	KTerm byte = 't'
	KNon  byte = 'n'
	KNil  byte = 'e'
	KMiss byte = '0' // no symbol at all: nil
)

type Sym struct {
	K byte
	S string
}

func T(s string) Sym { return Sym{KTerm, s} }
func N(s string) Sym { return Sym{KNon, s} }

var Eps = Sym{KNil, ""}

func (s Sym) MarshalText() ([]byte, error) {
	switch s.K {
	case KNil, KMiss:
		return []byte{s.K}, nil
	case KNon:
		return []byte("n" + strconv.QuoteToASCII(s.S)), nil
	}
	return []byte("t" + strconv.QuoteToASCII(s.S)), nil
}

func (s *Sym) UnmarshalText(b []byte) error {
	if len(b) == 0 {
		return fmt.Errorf("empty symbol")
	}
	s.K = b[0]
	if s.K == KNil || s.K == KMiss {
		return nil
	}
	var err error
	s.S, err = strconv.Unquote(string(b[1:]))
	return err
}

type Rule struct {
	Head Raw     `json:"h"`
	Alts [][]Sym `json:"a"`
}

type Gram []Rule

func (g Gram) clone() Gram {
	r := make(Gram, len(g))
	for i, x := range g {
		r[i].Head = x.Head
		r[i].Alts = make([][]Sym, len(x.Alts))
		for j, a := range x.Alts {
			r[i].Alts[j] = append([]Sym{}, a...)
		}
	}
	return r
}

func (g Gram) equal(o Gram) bool {
	if len(g) != len(o) {
		return false
	}
	for i := range g {
		if g[i].Head != o[i].Head || len(g[i].Alts) != len(o[i].Alts) {
			return false
		}
		for j := range g[i].Alts {
			if len(g[i].Alts[j]) != len(o[i].Alts[j]) {
				return false
			}
			for k := range g[i].Alts[j] {
				if g[i].Alts[j][k] != o[i].Alts[j][k] {
					return false
				}
			}
		}
	}
	return true
}

func (g Gram) String() string {
	sb := strings.Builder{}
	for i, r := range g {
		if i > 0 {
			sb.WriteString("; ")
		}
		fmt.Fprintf(&sb, "<%s> ::=", string(r.Head))
		for j, a := range r.Alts {
			if j > 0 {
				sb.WriteString(" |")
			}
			for _, s := range a {
				switch s.K {
				case KTerm:
					sb.WriteString(" " + strconv.QuoteToASCII(s.S))
				case KNon:
					sb.WriteString(" <" + s.S + ">")
				case KMiss:
					sb.WriteString(" nil")
				default:
					sb.WriteString(` ""`)
				}
			}
		}
	}
	return sb.String()
}

// ToBNF converts to the library's grammar type.
func (g Gram) ToBNF() bnf.Grammar {
	res := bnf.Grammar{}
	for _, r := range g {
		br := bnf.Rule{Head: bnf.SymbolNonTerminal{Name: string(r.Head)}}
		for _, a := range r.Alts {
			seq := bnf.Sequence{}
			for _, s := range a {
				switch s.K {
				case KTerm:
					seq.Symbols = append(seq.Symbols, bnf.SymbolTerminal{Name: s.S})
				case KNon:
					seq.Symbols = append(seq.Symbols, bnf.SymbolNonTerminal{Name: s.S})
				case KMiss:
					seq.Symbols = append(seq.Symbols, nil)
				default:
					seq.Symbols = append(seq.Symbols, bnf.SymbolNothing{})
				}
			}
			br.Tail.Sequences = append(br.Tail.Sequences, seq)
		}
		res.Rules = append(res.Rules, br)
	}
	return res
}

// FromBNF converts back; an error means a symbol of an unexpected kind.
func FromBNF(b bnf.Grammar) (Gram, error) {
	res := Gram{}
	for _, r := range b.Rules {
		x := Rule{Head: Raw(r.Head.Name)}
		for _, a := range r.Tail.Sequences {
			seq := []Sym{}
			for _, s := range a.Symbols {
				kind := -1
				switch v := s.(type) {
				case bnf.SymbolTerminal:
					seq = append(seq, T(v.Name))
					kind = bnf.TypeTerminal
				case bnf.SymbolNonTerminal:
					seq = append(seq, N(v.Name))
					kind = bnf.TypeNonTerminal
				case bnf.SymbolNothing:
					seq = append(seq, Eps)
					kind = bnf.TypeNothing
				default:
					return nil, fmt.Errorf("symbol of unexpected type %T", s)
				}
				if s.Type() != kind {
					return nil, fmt.Errorf("a symbol that is a %T says it is of type %d instead of %d", s, s.Type(), kind)
				}
			}
			x.Alts = append(x.Alts, seq)
		}
		res = append(res, x)
	}
	return res, nil
}

// ---------------------------------------------------------------- byte sets

// End is the end-of-input pseudo byte.
const End = 256

// Set holds bytes 0..255 and End.
type Set [5]uint64

func (s *Set) add(i int)     { s[i>>6] |= 1 << (uint(i) & 63) }
func (s Set) has(i int) bool { return s[i>>6]>>(uint(i)&63)&1 == 1 }
func (s *Set) union(o Set) bool {
	ch := false
	for i := range s {
		n := s[i] | o[i]
		if n != s[i] {
			ch = true
			s[i] = n
		}
	}
	return ch
}
func (s Set) and(o Set) Set {
	for i := range s {
		s[i] &= o[i]
	}
	return s
}
func (s Set) empty() bool { return s == Set{} }
func (s Set) list() []int {
	r := []int{}
	for i := 0; i <= End; i++ {
		if s.has(i) {
			r = append(r, i)
		}
	}
	return r
}
func (s Set) count() int {
	n := 0
	for _, w := range s {
		n += bits.OnesCount64(w)
	}
	return n
}

// ---------------------------------------------------------------- analysis

// isym is a resolved symbol: terminal (nt<0) or rule index.
type isym struct {
	nt   int
	text string
}

// Analysis is the textbook LL(1) analysis of a well-formed grammar.
type Analysis struct {
	g        Gram
	idx      map[string]int
	alts     [][][]isym // nothing-alternatives are empty slices
	nullable []bool
	first    []Set
	follow   []Set
	prod     []bool // derives some byte string
	reach    []bool
	altFirst [][]Set
	altNull  [][]bool
	conf     []Conflict
	height   []int // minimal derivation height, for productive rules
	minAlt   []int
}

// Conflict says that alternatives i<j of a rule compete for a byte.
type Conflict struct{ rule, i, j, b int }

// wellFormed reports the first flaw of the kinds property C06 lists, or "".
func wellFormed(g Gram) string {
	if len(g) == 0 {
		return "no rules"
	}
	heads := map[string]bool{}
	for _, r := range g {
		if heads[string(r.Head)] {
			return "duplicate rule"
		}
		heads[string(r.Head)] = true
	}
	for _, r := range g {
		for _, a := range r.Alts {
			if len(a) == 0 {
				return "alternative without symbols"
			}
			for _, s := range a {
				switch s.K {
				case KTerm:
					if s.S == "" {
						return "empty terminal"
					}
					if s.S[0] == 0 {
						return "terminal starting with NUL"
					}
				case KNon:
					if !heads[s.S] {
						return "undefined rule"
					}
				case KMiss:
					return "missing symbol"
				case KNil:
					if len(a) > 1 {
						return "empty string next to other symbols"
					}
				}
			}
		}
	}
	return ""
}

func analyze(g Gram) *Analysis {
	n := len(g)
	a := &Analysis{g: g, idx: make(map[string]int, n), alts: make([][][]isym, n),
		nullable: make([]bool, n), first: make([]Set, n), follow: make([]Set, n),
		prod: make([]bool, n), reach: make([]bool, n), altFirst: make([][]Set, n), altNull: make([][]bool, n),
		height: make([]int, n), minAlt: make([]int, n)}
	for i, r := range g {
		a.idx[string(r.Head)] = i
	}
	for i, r := range g {
		a.alts[i] = make([][]isym, len(r.Alts))
		for j, alt := range r.Alts {
			for _, s := range alt {
				switch s.K {
				case KTerm:
					a.alts[i][j] = append(a.alts[i][j], isym{-1, s.S})
				case KNon:
					a.alts[i][j] = append(a.alts[i][j], isym{a.idx[s.S], ""})
				}
			}
		}
	}
	// nullable
	for ch := true; ch; {
		ch = false
		for i := range g {
			if a.nullable[i] {
				continue
			}
			for _, alt := range a.alts[i] {
				if a.seqNullable(alt) {
					a.nullable[i] = true
					ch = true
					break
				}
			}
		}
	}
	// productive, with minimal heights
	for h, ch := 1, true; ch; h++ {
		ch = false
		var now []int
		for i := range g {
			if a.prod[i] {
				continue
			}
			for j, alt := range a.alts[i] {
				ok := true
				for _, s := range alt {
					if s.nt >= 0 && !a.prod[s.nt] {
						ok = false
						break
					}
				}
				if ok {
					a.height[i], a.minAlt[i] = h, j
					now = append(now, i)
					break
				}
			}
		}
		for _, i := range now {
			a.prod[i] = true
			ch = true
		}
	}
	// reachable
	if n > 0 {
		st := []int{0}
		a.reach[0] = true
		for len(st) > 0 {
			i := st[len(st)-1]
			st = st[:len(st)-1]
			for _, alt := range a.alts[i] {
				for _, s := range alt {
					if s.nt >= 0 && !a.reach[s.nt] {
						a.reach[s.nt] = true
						st = append(st, s.nt)
					}
				}
			}
		}
	}
	// FIRST
	for ch := true; ch; {
		ch = false
		for i := range g {
			for _, alt := range a.alts[i] {
				if a.first[i].union(a.seqFirst(alt)) {
					ch = true
				}
			}
		}
	}
	// FOLLOW
	if n > 0 {
		a.follow[0].add(End)
	}
	for ch := true; ch; {
		ch = false
		for i := range g {
			for _, alt := range a.alts[i] {
				tail := a.follow[i] // what can follow the symbol looked at
				for k := len(alt) - 1; k >= 0; k-- {
					s := alt[k]
					if s.nt < 0 {
						tail = Set{}
						tail.add(int(s.text[0]))
						continue
					}
					if a.follow[s.nt].union(tail) {
						ch = true
					}
					if !a.nullable[s.nt] {
						tail = Set{}
					}
					tail.union(a.first[s.nt])
				}
			}
		}
	}
	for i := range g {
		a.altFirst[i] = make([]Set, len(a.alts[i]))
		a.altNull[i] = make([]bool, len(a.alts[i]))
		sel := make([]Set, len(a.alts[i]))
		for j, alt := range a.alts[i] {
			a.altFirst[i][j] = a.seqFirst(alt)
			a.altNull[i][j] = a.seqNullable(alt)
			sel[j] = a.altFirst[i][j]
			if a.altNull[i][j] {
				sel[j].union(a.follow[i])
			}
		}
		for j := range sel {
			for k := 0; k < j; k++ {
				x := sel[j].and(sel[k])
				if !x.empty() {
					a.conf = append(a.conf, Conflict{i, k, j, x.list()[0]})
				} else if a.altNull[i][j] && a.altNull[i][k] {
					// both nullable with an empty FOLLOW: unreachable rule that nothing
					// follows; no cell is contested
					_ = x
				}
			}
		}
	}
	return a
}

func (a *Analysis) seqNullable(alt []isym) bool {
	for _, s := range alt {
		if s.nt < 0 || !a.nullable[s.nt] {
			return false
		}
	}
	return true
}

func (a *Analysis) seqFirst(alt []isym) Set {
	var r Set
	for _, s := range alt {
		if s.nt < 0 {
			r.add(int(s.text[0]))
			return r
		}
		r.union(a.first[s.nt])
		if !a.nullable[s.nt] {
			return r
		}
	}
	return r
}

func (a *Analysis) has(name Raw) bool { _, ok := a.idx[string(name)]; return ok }

func (a *Analysis) ll1() bool { return len(a.conf) == 0 }

// dormant: a rule with two nullable alternatives whose FOLLOW is empty (an
// unreachable rule): no table cell is contested, yet the rule is ambiguous.
// The specification is silent about these, so checks avoid them.
func (a *Analysis) dormant() bool {
	for i := range a.g {
		if !a.follow[i].empty() {
			continue
		}
		c := 0
		for _, nl := range a.altNull[i] {
			if nl {
				c++
			}
		}
		if c > 1 {
			return true
		}
	}
	return false
}

// leftRecursive: some productive, reachable rule derives itself leftmost.
func (a *Analysis) leftRecursive() bool {
	n := len(a.g)
	adj := make([][]int, n)
	for i := range a.g {
		for _, alt := range a.alts[i] {
			for _, s := range alt {
				if s.nt < 0 {
					break
				}
				adj[i] = append(adj[i], s.nt)
				if !a.nullable[s.nt] {
					break
				}
			}
		}
	}
	for s := 0; s < n; s++ {
		seen := make([]bool, n)
		st := append([]int{}, adj[s]...)
		for len(st) > 0 {
			x := st[len(st)-1]
			st = st[:len(st)-1]
			if x == s {
				return true
			}
			if seen[x] {
				continue
			}
			seen[x] = true
			st = append(st, adj[x]...)
		}
	}
	return false
}

func (a *Analysis) allProductive() bool {
	for i := range a.g {
		if !a.prod[i] {
			return false
		}
	}
	return true
}

// cell of the expected table: alternative index, or -1 none; empty marks an
// entry that exists only because the byte can follow a nullable rule.
type Cell struct {
	alt   int
	empty bool
}

// cell gives the predictive entry of a rule for byte b or End.
func (a *Analysis) cell(rule, b int) Cell {
	for j := range a.alts[rule] {
		if a.altFirst[rule][j].has(b) {
			return Cell{j, false}
		}
	}
	for j := range a.alts[rule] {
		if a.altNull[rule][j] && a.follow[rule].has(b) {
			return Cell{j, true}
		}
	}
	return Cell{-1, false}
}

// bytesOf lists the distinct bytes used in terminals.
func (g Gram) bytesOf() []byte {
	var s Set
	for _, r := range g {
		for _, a := range r.Alts {
			for _, x := range a {
				if x.K == KTerm {
					for i := 0; i < len(x.S); i++ {
						s.add(int(x.S[i]))
					}
				}
			}
		}
	}
	r := []byte{}
	for _, b := range s.list() {
		r = append(r, byte(b))
	}
	return r
}
