package main

// C07 C08 C09: the BNF notation.

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

type CaseTG struct {
	G    Gram  `json:"g"`
	Text []Raw `json:"text"`
}

type CaseT struct {
	Text Raw `json:"text"`
}

// charset the notation can express in a terminal
func bnfChars() []byte {
	r := []byte{'\t', '\n', '\r'}
	for c := byte(32); c < 127; c++ {
		r = append(r, c)
	}
	return r
}

// genBNF draws any grammar the notation can express, LL(1) or not.
func genBNF(t *rapid.T) Gram {
	var g Gram
	switch weighted(t, 50, 20, 30) {
	case 0:
		g = genGram(t, GOpt{BNF: true, Small: pct(t, 70)})
	case 1:
		g = genLL1(t, GOpt{BNF: true, Small: true})
	default: // terminal soup
		cs := bnfChars()
		if pct(t, 60) {
			cs = metaBytes
		}
		n := rng(t, 1, 4)
		names := genNames(t, n, true)
		g = make(Gram, n)
		for i := range g {
			g[i].Head = Raw(names[i])
			alts, syms := 4, 5
			if pct(t, 3) { // long lines
				alts, syms = oneOf(t, 4, 20, 60), oneOf(t, 5, 12, 70)
			}
			for j := rng(t, 1, alts); j > 0; j-- {
				alt := []Sym{}
				for k := rng(t, 1, syms); k > 0; k-- {
					switch weighted(t, 65, 20, 15) {
					case 0:
						l := oneOf(t, 1, 1, 2, 3, 5, 9, 30)
						if pct(t, 2) {
							l = oneOf(t, 63, 64, 65, 80, 127, 128, 129, 256, 300, 600)
						}
						b := make([]byte, l)
						for x := range b {
							b[x] = cs[uni(t, len(cs))]
						}
						alt = append(alt, T(string(b)))
					case 1:
						alt = append(alt, N(names[uni(t, n)]))
					default:
						alt = append(alt, Eps)
					}
				}
				g[i].Alts = append(g[i].Alts, alt)
			}
		}
	}
	if pct(t, 10) { // the notation also allows undefined and repeated rules
		g = g.clone()
		if pct(t, 50) {
			g = append(g, g[uni(t, len(g))])
		} else {
			i := uni(t, len(g))
			g[i].Head += "-x"
		}
	}
	if uni(t, 250) == 0 { // huge parts
		g = g.clone()
		n := oneOf(t, 100, 257, 300, 1000, 5000)
		long := "L" + strings.Repeat(oneOf(t, "a", "b-1", "Zz9"), n)
		switch uni(t, 5) {
		case 0: // a name
			g = append(g, Rule{Raw(long), [][]Sym{{N(long), T("x")}, {Eps}}})
		case 1: // a terminal
			w := oneOf(t, "x", "ab\"", "'q ", "\\n\n\r\t", "\"'")
			g[0].Alts = append(g[0].Alts, []Sym{T(strings.Repeat(w, n)), N(long)})
		case 2: // an alternative
			alt := []Sym{}
			for len(alt) < min(n, 1000) {
				alt = append(alt, T("y"), N("Q"), Eps)
			}
			g[0].Alts = append(g[0].Alts, alt)
		case 3: // many alternatives
			for i := 0; i < min(n, 1000); i++ {
				g[len(g)-1].Alts = append(g[len(g)-1].Alts, []Sym{T(fmt.Sprint(i)), Eps})
			}
		case 4: // many rules
			for i := 0; i < min(n, 1000); i++ {
				g = append(g, Rule{Raw(fmt.Sprintf("Rule%d", i)), [][]Sym{{T(fmt.Sprint(i))}, {N("Q")}}})
			}
		}
	} else if pct(t, 4) { // big
		h := g.clone()
		for len(h) < 80 {
			h = append(h, g.clone()...)
		}
		g = h
	}
	return g
}

func textShape(g Gram, o *Obs) (quoted bool) {
	for _, r := range g {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K != KTerm {
					if s.K == KNil {
						o.Label("symbol: empty string")
					}
					continue
				}
				d, q := strings.Contains(s.S, `"`), strings.Contains(s.S, "'")
				b := strings.ContainsAny(s.S, "\\\t\n\r")
				switch {
				case d && q:
					o.Label("terminal: both quotes")
				case d:
					o.Label("terminal: double quote")
				case q:
					o.Label("terminal: single quote")
				}
				if b {
					o.Label("terminal: backslash or control")
				}
				if d || q || b {
					quoted = true
				}
			}
		}
	}
	return quoted
}

// enumTerms yields grammars listing all terminals of up to two characters, and
// up to four over the characters quoting is about.
func enumTerms(tier string, k, n int, yield func(g Gram) bool) {
	var all []string
	cs := bnfChars()
	for _, x := range cs {
		all = append(all, string([]byte{x}))
		for _, y := range cs {
			all = append(all, string([]byte{x, y}))
		}
	}
	l := 4
	if tier == "thorough" {
		l = 6
	}
	for _, s := range stringsOver("a\"'\\\nnt", l) {
		if len(s) > 2 {
			all = append(all, string(s))
		}
	}
	const per = 20
	for i := 0; i < len(all); i += per {
		if i/per%n != k {
			continue
		}
		g := Gram{{Head: "A"}}
		for j := i; j < i+per && j < len(all); j++ {
			g[0].Alts = append(g[0].Alts, []Sym{T(all[j])})
		}
		if !yield(g) {
			return
		}
	}
}

const enumTermsDesc = "all terminals of one or two expressible characters, and of up to four (six in thorough) over {a, \", ', \\, LF, n, t}, twenty per grammar"

var textTokens = []string{"<a>", "<", ">", "::=", "|", "\"\"", "'b'", "\"", "'", "\\", " ", "\n", "\r\n", "a"}

func init() {
	register(&Prop{
		ID:       "C07",
		Rule:     "a case is a grammar the notation can express (random, LL(1), or rich in quotes, backslashes, control characters and empty strings; 1-80 rules); non-trivial: some terminal needs quoting or escaping",
		Quick:    8000,
		Thorough: 200000,
		Enum: func(tier string, k, n int, yield func(c any) bool) {
			enumTerms(tier, k, n, func(g Gram) bool { return yield(&CaseG{g}) })
		},
		EnumDesc: enumTermsDesc,
		Init:     initSelf,
		New:      func() any { return &CaseG{} },
		Gen:      func(t *rapid.T) any { return &CaseG{genBNF(t)} },
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseG)
			if textShape(c.G, o) {
				o.NonTrivial()
			}
			b := c.G.ToBNF()
			text := b.String()
			g, refused, err := readBNF(text)
			if err != nil {
				return fmt.Errorf("%v\ntext %q", err, text)
			}
			if refused != nil {
				return fmt.Errorf("printed grammar refused: %v\ntext %q", refused, text)
			}
			if !g.equal(c.G) {
				return fmt.Errorf("re-read grammar differs\ntext %q\nwas  %v\nread %v", text, c.G, g)
			}
			if again := g.ToBNF().String(); again != text {
				return fmt.Errorf("printing again differs\n%q\n%q", text, again)
			}
			// each rule prints alone as it does within the grammar
			r := uni2(len(text), len(b.Rules))
			one, refused, err := readBNF(b.Rules[r].String())
			if err != nil || refused != nil || len(one) != 1 || !one.equal(c.G[r:r+1]) {
				return fmt.Errorf("rule %q alone reads as %v (%v, %v)", b.Rules[r].String(), one, refused, err)
			}
			// and so does each symbol
			j := uni2(len(text)/3, len(c.G[r].Alts))
			k := uni2(len(text)/7, len(c.G[r].Alts[j]))
			sym := b.Rules[r].Tail.Sequences[j].Symbols[k]
			want := Gram{{"x", [][]Sym{{c.G[r].Alts[j][k]}}}}
			one, refused, err = readBNF("<x> ::= " + sym.String())
			if err != nil || refused != nil || !one.equal(want) {
				return fmt.Errorf("symbol %q alone reads as %v (%v, %v), want %v", sym.String(), one, refused, err, want)
			}
			return nil
		},
	})

	register(&Prop{
		ID:       "C08",
		Rule:     "a case is a grammar the notation can express with three texts written in drawn layouts (spaces 0-70 at every optional place, LF/CRLF/mixed, blank lines between and after, either quote, plain or escaped characters); non-trivial: the texts differ",
		Quick:    7000,
		Thorough: 150000,
		Init:     initSelf,
		New:      func() any { return &CaseTG{} },
		Gen: func(t *rapid.T) any {
			g := genBNF(t)
			c := &CaseTG{G: g}
			n := 3
			if len(g) > 20 {
				n = 1
			}
			for i := 0; i < n; i++ {
				c.Text = append(c.Text, Raw(layout(t, g)))
			}
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseTG)
			if ref, ok, _ := refBNF(string(c.Text[0]), stdEscapes); !ok || !ref.equal(c.G) {
				return bug("writer and reference reader disagree on %q", c.Text[0])
			}
			for _, x := range c.Text {
				text := string(x)
				if text != string(c.Text[0]) {
					o.NonTrivial()
				}
				if strings.Contains(text, "\r\n") {
					o.Label("layout: CRLF")
				}
				if strings.Contains(text, "\n\n") || strings.Contains(text, "\n\r") || strings.Contains(text, "\n ") {
					o.Label("layout: blank or indented line")
				}
				if strings.HasSuffix(text, "\n") || strings.HasSuffix(text, " ") {
					o.Label("layout: trailing white space")
				}
				if strings.ContainsAny(text, "'") {
					o.Label("layout: single quote")
				}
				g, refused, err := readBNF(text)
				if err != nil {
					return fmt.Errorf("%v\ntext %q", err, text)
				}
				if refused != nil {
					return fmt.Errorf("legal text refused: %v\ntext %q", refused, text)
				}
				if !g.equal(c.G) {
					return fmt.Errorf("text reads as another grammar\ntext %q\nwant %v\nread %v", text, c.G, g)
				}
			}
			return nil
		},
	})

	register(&Prop{
		ID:       "C09",
		Rule:     "a case is a text: a grammar in a drawn layout with 0-4 edits (any byte, mostly the notation's own characters), a sequence of tokens, or noise; judged by an independent hand-written reader; non-trivial: accepted, or refused only after at least one complete rule head",
		Quick:    16000,
		Thorough: 400000,
		Init:     initSelf,
		EnumDesc: "every byte value at nine places of a legal text (in both kinds of quotes, after a backslash, first and later in names, between symbols, before and after rules); every sequence of up to five (six in thorough) of 14 tokens (<a>, <, >, ::=, |, \"\", 'b', \", ', backslash, space, LF, CRLF, a) after the prefix '<a>::=' and of up to four from the beginning",
		Enum: func(tier string, k, n int, yield func(c any) bool) {
			i := 0
			em := func(s string) bool {
				i++
				if i%n != k {
					return true
				}
				return yield(&CaseT{Raw(s)})
			}
			for b := 0; b < 256; b++ {
				x := string([]byte{byte(b)})
				for _, f := range [][2]string{{`<a> ::= "x`, `y" "z"`}, {`<a> ::= 'x`, `y' 'z'`}, {`<a> ::= "\`, `" 'z'`}, {`<a> ::= '\`, `' "z"`},
					{"<", `bc> ::= "x"`}, {"<a", `b> ::= "x"`}, {`<a> ::= "x"`, `<b>`}, {"", `<a> ::= "x"`}, {`<a> ::= "x"`, ""}, {"<a> ::= <", "b>"}, {"<a> ::= <b", ">"}, {"<a>", `::= "x"`}} {
					if !em(f[0] + x + f[1]) {
						return
					}
				}
			}
			var rec func(s string, d int) bool
			rec = func(s string, d int) bool {
				if !em(s) {
					return false
				}
				if d == 0 {
					return true
				}
				for _, tk := range textTokens {
					if !rec(s+tk, d-1) {
						return false
					}
				}
				return true
			}
			d := 5
			if tier == "thorough" {
				d = 6
			}
			if !rec("<a>::=", d) {
				return
			}
			rec("", 4)
		},
		New: func() any { return &CaseT{} },
		Gen: func(t *rapid.T) any {
			var s string
			switch weighted(t, 75, 20, 5) {
			case 0:
				var g Gram
				if pct(t, 70) {
					g = genGram(t, GOpt{BNF: true, Small: true, MaxR: 3})
				} else {
					g = genBNF(t)
				}
				s = layout(t, g)
				for n := oneOf(t, 0, 1, 1, 1, 2, 4); n > 0; n-- {
					s = editText(t, s)
				}
			case 1:
				for n := rng(t, 1, 20); n > 0; n-- {
					s += textTokens[uni(t, len(textTokens))]
				}
				if pct(t, 70) {
					s = "<a> ::= " + s
				}
			default:
				b := make([]byte, uni(t, 12))
				for i := range b {
					b[i] = byte(uni(t, 256))
				}
				s = string(b)
			}
			return &CaseT{Raw(s)}
		},
		Check: func(ci any, o *Obs) error {
			text := string(ci.(*CaseT).Text)
			want, ok, _ := refBNF(text, stdEscapes)
			g, refused, err := readBNF(text)
			if ok {
				o.NonTrivial()
				o.Label("conforming text")
			} else {
				if strings.Contains(text, "::=") {
					o.NonTrivial()
				}
				o.Label("not conforming")
			}
			if err != nil {
				return fmt.Errorf("%v\ntext %q", err, text)
			}
			if ok && refused != nil {
				return fmt.Errorf("conforming text refused: %v\ntext %q", refused, text)
			}
			if !ok && refused == nil {
				return fmt.Errorf("non-conforming text accepted as %v\ntext %q", g, text)
			}
			if ok && !g.equal(want) {
				return fmt.Errorf("text reads as another grammar\ntext %q\nwant %v\nread %v", text, want, g)
			}
			return nil
		},
	})
}

// uni2 picks an index as a fixed function of the case.
func uni2(x, n int) int { return x * 7919 % n }

// editText makes one change to a BNF text.
func editText(t *rapid.T, s string) string {
	switch weighted(t, 55, 25, 20) {
	case 0:
		return mutate(t, s, []byte("<>:=|\"'\\ \n\r\ntrab1-"))
	case 1:
		i := uni(t, len(s)+1)
		return s[:i] + textTokens[uni(t, len(textTokens))] + s[i:]
	}
	// remove or double one occurrence of a token
	tk := textTokens[uni(t, len(textTokens))]
	n := strings.Count(s, tk)
	if n == 0 {
		return s
	}
	k := uni(t, n)
	at := 0
	for ; k >= 0; k-- {
		j := strings.Index(s[at:], tk)
		if j < 0 {
			return s
		}
		at += j
		if k > 0 {
			at += len(tk)
		}
	}
	if pct(t, 50) {
		return s[:at] + tk + s[at:]
	}
	return s[:at] + s[at+len(tk):]
}
