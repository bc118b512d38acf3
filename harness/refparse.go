package main

// Reference parsers: Earley (any grammar, no LL(1) theory involved) and a
// predictive parser over the textbook analysis that builds expected trees.

import "fmt"

// ---------------------------------------------------------------- Earley

type Earley struct {
	// states: (production, dot) flattened; next[s] is the symbol after the dot:
	// 0..255 byte, 256+r rule, -1 at the end.
	next     []int
	lhs      []int
	start    [][]int // initial states per rule
	nullable []bool
	startR   int
}

// newEarley builds the recogniser from productive alternatives only, so that
// every non-empty item set is a viable prefix.
func newEarley(a *Analysis) *Earley {
	e := &Earley{start: make([][]int, len(a.g)), nullable: a.nullable}
	for i := range a.g {
		for _, alt := range a.alts[i] {
			ok := true
			for _, s := range alt {
				if s.nt >= 0 && !a.prod[s.nt] {
					ok = false
				}
			}
			if !ok {
				continue
			}
			e.start[i] = append(e.start[i], len(e.next))
			for _, s := range alt {
				if s.nt >= 0 {
					e.next = append(e.next, 256+s.nt)
					e.lhs = append(e.lhs, i)
					continue
				}
				for k := 0; k < len(s.text); k++ {
					e.next = append(e.next, int(s.text[k]))
					e.lhs = append(e.lhs, i)
				}
			}
			e.next = append(e.next, -1)
			e.lhs = append(e.lhs, i)
		}
	}
	return e
}

type eitem struct{ st, org int32 }

// eset keeps the items of one position and, for completion, the items waiting
// for each rule.
type eset struct {
	items []eitem
	wait  map[int][]eitem
}

type ERes struct {
	accepted bool
	viable   int   // number of leading bytes that are a viable prefix
	next     Set   // bytes (or End) that can continue after them
	acceptAt []int // prefix lengths that are sentences
}

func (e *Earley) run(in string) ERes {
	sets := make([]eset, 1, len(in)+1)
	var res ERes
	seen := map[eitem]struct{}{}
	cur := &sets[0]
	add := func(s *eset, it eitem) {
		if _, ok := seen[it]; ok {
			return
		}
		seen[it] = struct{}{}
		s.items = append(s.items, it)
	}
	for _, st := range e.start[0] {
		add(cur, eitem{int32(st), 0})
	}
	for pos := 0; ; pos++ {
		cur = &sets[pos]
		cur.wait = map[int][]eitem{}
		doneEmpty := map[int]bool{}
		acc := false
		for i := 0; i < len(cur.items); i++ {
			it := cur.items[i]
			nx := e.next[it.st]
			switch {
			case nx >= 256:
				r := nx - 256
				cur.wait[r] = append(cur.wait[r], it)
				if len(cur.wait[r]) == 1 {
					for _, st := range e.start[r] {
						add(cur, eitem{int32(st), int32(pos)})
					}
				}
				if e.nullable[r] || doneEmpty[r] {
					add(cur, eitem{it.st + 1, it.org})
				}
			case nx < 0:
				l := e.lhs[it.st]
				if l == 0 && it.org == 0 {
					acc = true
				}
				if int(it.org) == pos {
					doneEmpty[l] = true
				}
				for _, w := range sets[it.org].wait[l] {
					add(cur, eitem{w.st + 1, w.org})
				}
			}
		}
		if acc {
			res.acceptAt = append(res.acceptAt, pos)
		}
		var nxt Set
		for _, it := range cur.items {
			if n := e.next[it.st]; n >= 0 && n < 256 {
				nxt.add(n)
			}
		}
		if acc {
			nxt.add(End)
		}
		if pos == len(in) {
			res.accepted, res.viable, res.next = acc, pos, nxt
			return res
		}
		b := int(in[pos])
		if !nxt.has(b) {
			res.viable, res.next = pos, nxt
			return res
		}
		clear(seen)
		var ns eset
		for _, it := range cur.items {
			if e.next[it.st] == b {
				add(&ns, eitem{it.st + 1, it.org})
			}
		}
		sets = append(sets, ns)
	}
}

// ------------------------------------------------------- predictive reference

const (
	TLit = -1
	TNil = -2
)

// RT is an expected tree node.
type RT struct {
	T, S, E int
	K       []*RT
}

type RErr struct {
	pos  int
	kind string // "rule", "char", "end"
	rule int
	char byte
}

func (r *RErr) Error() string { return fmt.Sprintf("%s at %d", r.kind, r.pos) }

// refParse parses with the predictive table of an LL(1) grammar.
func refParse(a *Analysis, in string) (*RT, *RErr) {
	pos := 0
	var nt func(r int) (*RT, *RErr)
	nt = func(r int) (*RT, *RErr) {
		b := End
		if pos < len(in) {
			b = int(in[pos])
		}
		c := a.cell(r, b)
		if c.alt < 0 {
			return nil, &RErr{pos: pos, kind: "rule", rule: r}
		}
		if c.empty {
			return &RT{r, pos, pos, []*RT{{TNil, pos, pos, nil}}}, nil
		}
		alt := a.alts[r][c.alt]
		n := &RT{T: r, S: pos, K: make([]*RT, 0, len(alt))}
		for _, s := range alt {
			if s.nt >= 0 {
				k, err := nt(s.nt)
				if err != nil {
					return nil, err
				}
				n.K = append(n.K, k)
				continue
			}
			st := pos
			for i := 0; i < len(s.text); i++ {
				if pos >= len(in) || in[pos] != s.text[i] {
					return nil, &RErr{pos: pos, kind: "char", char: s.text[i]}
				}
				pos++
			}
			n.K = append(n.K, &RT{TLit, st, pos, nil})
		}
		n.E = pos
		return n, nil
	}
	t, err := nt(0)
	if err != nil {
		return nil, err
	}
	if pos != len(in) {
		return nil, &RErr{pos: pos, kind: "end"}
	}
	return t, nil
}
