package main

// Cross-validation of the reference models against each other and against
// brute force. Does not run the code under test.

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"pgregory.net/rapid"
)

// bruteCount counts leftmost derivations (up to 2) of every string of at most
// maxLen bytes by expanding sentential forms; ok is false if it gave up.
func bruteCount(a *Analysis, maxLen int) (count map[string]int, ok bool) {
	type form struct {
		done string
		rest []isym
	}
	// shortest yields prune hopeless forms
	const inf = 1 << 20
	short := make([]int, len(a.g))
	for i := range short {
		short[i] = inf
	}
	for ch := true; ch; {
		ch = false
		for i := range a.g {
			for _, alt := range a.alts[i] {
				n := 0
				for _, s := range alt {
					if s.nt < 0 {
						n += len(s.text)
					} else {
						n = min(n+short[s.nt], inf)
					}
				}
				if n < short[i] {
					short[i], ch = n, true
				}
			}
		}
	}
	count = map[string]int{}
	st := []form{{"", []isym{{nt: 0}}}}
	for steps := 0; len(st) > 0; steps++ {
		if steps > 60000 {
			return nil, false
		}
		f := st[len(st)-1]
		st = st[:len(st)-1]
		for len(f.rest) > 0 && f.rest[0].nt < 0 {
			f.done += f.rest[0].text
			f.rest = f.rest[1:]
		}
		n := len(f.done)
		for _, s := range f.rest {
			if s.nt < 0 {
				n += len(s.text)
			} else {
				n += short[s.nt]
			}
		}
		if n > maxLen {
			continue
		}
		if len(f.rest) > 60 {
			return nil, false
		}
		if len(f.rest) == 0 {
			count[f.done]++
			continue
		}
		for _, alt := range a.alts[f.rest[0].nt] {
			st = append(st, form{f.done, append(append([]isym{}, alt...), f.rest[1:]...)})
		}
	}
	return count, true
}

type rtNode struct{ r *RT }

func (n rtNode) Type() int { return n.r.T }
func (n rtNode) Pos() int  { return n.r.S }
func (n rtNode) End() int  { return n.r.E }
func (n rtNode) Childs() []cst.Node {
	var k []cst.Node
	for _, x := range n.r.K {
		k = append(k, rtNode{x})
	}
	return k
}

func selftest() int {
	stats := map[string]int{}
	run := func(name string, n int, f func(t *rapid.T) error) bool {
		flag.Set("rapid.checks", fmt.Sprint(n))
		flag.Set("rapid.seed", "12345")
		flag.Set("rapid.nofailfile", "true")
		tb := &silentTB{}
		var last error
		done := make(chan struct{})
		go func() {
			defer close(done)
			rapid.Check(tb, func(t *rapid.T) {
				if err := f(t); err != nil {
					last = err
					t.Fatalf("%v", err)
				}
			})
		}()
		<-done
		if last != nil || tb.Failed() {
			fmt.Printf("SELFTEST FAILED: %s: %v\n%s\n", name, last, clip(tb.log.String(), 3000))
			return false
		}
		return true
	}
	good := true
	al := stringsOver("ab", 4)
	good = run("Earley and LL(1) analysis against brute force", 3000, func(t *rapid.T) error {
		var g Gram
		if pct(t, 50) {
			g = genTiny(t)
		} else {
			g = genLL1(t, GOpt{Small: true, MaxR: 3})
		}
		if wellFormed(g) != "" {
			return nil
		}
		a := analyze(g)
		count, ok := bruteCount(a, 4)
		if !ok {
			stats["brute force gave up"]++
			return nil
		}
		stats["grammars against brute force"]++
		e := newEarley(a)
		ll := a.ll1() && !a.dormant()
		for _, w := range al {
			s := string(w)
			r := e.run(s)
			if r.accepted != (count[s] > 0) {
				return fmt.Errorf("%q: Earley %v, %d derivations\n%v", s, r.accepted, count[s], g)
			}
			// each sentence is viable and each of its bytes predicted
			for x := range count {
				if strings.HasPrefix(x, s) && (r.viable != len(s) || len(x) > len(s) && !r.next.has(int(x[len(s)])) || x == s && !r.next.has(End)) {
					return fmt.Errorf("prefix %q of sentence %q: viable %d next %v\n%v", s, x, r.viable, r.next.list(), g)
				}
			}
			if !ll {
				continue
			}
			if count[s] > 1 {
				return fmt.Errorf("%q has %d derivations in a grammar analysed as LL(1)\n%v", s, count[s], g)
			}
			rt, rerr := refParse(a, s)
			if (rerr == nil) != (count[s] > 0) {
				return fmt.Errorf("%q: refParse %v, %d derivations\n%v", s, rerr, count[s], g)
			}
			if rerr == nil {
				stats["sentences"]++
				if err := checkTree(a, rtNode{rt}, s); err != nil {
					return fmt.Errorf("%q: reference tree: %v\n%v", s, err, g)
				}
			} else if a.allProductive() && rerr.pos != r.viable && rerr.kind != "rule" {
				// a predictive parser stops at the first byte that is not viable,
				// or earlier only by predicting nothing
				return fmt.Errorf("%q: refParse stops at %d, viable %d\n%v", s, rerr.pos, r.viable, g)
			}
		}
		return nil
	}) && good
	good = run("predictive reference against Earley", 1500, func(t *rapid.T) error {
		g := genLL1(t, GOpt{})
		a := analyze(g)
		if !a.ll1() || wellFormed(g) != "" {
			return fmt.Errorf("genLL1 gives %v", g)
		}
		e := newEarley(a)
		for _, in := range genInputs(t, g, a, 4) {
			s := string(in)
			r := e.run(s)
			rt, rerr := refParse(a, s)
			if r.accepted != (rerr == nil) {
				return fmt.Errorf("%q: Earley %v, refParse %v\n%v", s, r.accepted, rerr, g)
			}
			if rerr == nil {
				stats["sentences of larger grammars"]++
				if err := checkTree(a, rtNode{rt}, s); err != nil {
					return fmt.Errorf("%q: %v\n%v", s, err, g)
				}
			}
		}
		return nil
	}) && good
	good = run("BNF reader against writer", 1500, func(t *rapid.T) error {
		g := genBNF(t)
		s := layout(t, g)
		h, ok, un := refBNF(s, stdEscapes)
		if !ok || un || !h.equal(g) {
			return fmt.Errorf("%v\nwritten as %q\nreads as %v %v", g, s, ok, h)
		}
		stats["texts written and read"]++
		return nil
	}) && good
	good = run("JSON recogniser against encoding/json", 20000, func(t *rapid.T) error {
		s := string(genJSON(t).(*CaseJSON).Doc)
		_, ok := readJSON(s, false)
		valid := json.Valid([]byte(s))
		if ok && !valid {
			return fmt.Errorf("%q is not JSON", s)
		}
		if _, lax := readJSON(s, true); ok && !lax {
			return fmt.Errorf("%q: lax is stricter", s)
		}
		if valid && !ok {
			// must use something the example does not support
			odd := strings.ContainsFunc(s, func(r rune) bool { return r > 126 || r == '\t' }) ||
				strings.Contains(strings.ReplaceAll(s, "\r\n", ""), "\r")
			for i := 0; i < len(s) && !odd; i++ {
				if s[i] == '[' && strings.HasPrefix(strings.TrimLeft(s[i+1:], " \n\r"), "]") && s[i+1] != ']' {
					odd = true
				}
			}
			if !odd {
				return fmt.Errorf("%q is plain JSON but refused", s)
			}
			stats["valid JSON outside the subset"]++
		}
		if ok {
			stats["JSON documents"]++
		}
		return nil
	}) && good
	for k, v := range stats {
		fmt.Printf("  %-40s %d\n", k, v)
	}
	if !good {
		return 2
	}
	fmt.Fprintln(os.Stdout, "SELFTEST ok")
	return 0
}
