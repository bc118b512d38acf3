package main

// BNF text: an independent reader of the documented notation, and a writer
// that draws the layout.

import (
	"strings"

	"pgregory.net/rapid"
)

var stdEscapes = map[string]string{"t": "\t", "n": "\n", "r": "\r", `"`: `"`, `\`: `\`}

// bnfReader reads the notation documented above bnf.SelfGrammar.
type bnfReader struct {
	s        string
	i        int
	esc      map[string]string
	unmapped bool // an escape without a mapping occurred
}

func (r *bnfReader) at(c byte) bool { return r.i < len(r.s) && r.s[r.i] == c }
func (r *bnfReader) eat(w string) bool {
	if strings.HasPrefix(r.s[r.i:], w) {
		r.i += len(w)
		return true
	}
	return false
}
func (r *bnfReader) spaces() {
	for r.at(' ') {
		r.i++
	}
}
func isLetter(c byte) bool { return c >= 'A' && c <= 'Z' || c >= 'a' && c <= 'z' }
func isDigit(c byte) bool  { return c >= '0' && c <= '9' }

// name reads "<" rule-name ">".
func (r *bnfReader) name() (string, bool) {
	if !r.eat("<") {
		return "", false
	}
	st := r.i
	for r.i < len(r.s) {
		c := r.s[r.i]
		if isLetter(c) || r.i > st && (isDigit(c) || c == '-') {
			r.i++
			continue
		}
		break
	}
	n := r.s[st:r.i]
	return n, n != "" && r.eat(">")
}

// term reads one symbol.
func (r *bnfReader) term() (Sym, bool) {
	if r.i >= len(r.s) {
		return Sym{}, false
	}
	q := r.s[r.i]
	if q == '<' {
		n, ok := r.name()
		return N(n), ok
	}
	if q != '"' && q != '\'' {
		return Sym{}, false
	}
	r.i++
	sb := strings.Builder{}
	for {
		if r.i >= len(r.s) {
			return Sym{}, false
		}
		c := r.s[r.i]
		r.i++
		switch {
		case c == q:
			if sb.Len() == 0 {
				return Eps, true
			}
			return T(sb.String()), true
		case c == '\\':
			if r.i >= len(r.s) || !strings.ContainsRune(`tnr"\`, rune(r.s[r.i])) {
				return Sym{}, false
			}
			v, ok := r.esc[r.s[r.i:r.i+1]]
			if !ok {
				r.unmapped = true
			}
			sb.WriteString(v)
			r.i++
		case c < 32 || c > 126:
			return Sym{}, false
		default:
			sb.WriteByte(c)
		}
	}
}

// content reads one rule, up to the end of its line.
func (r *bnfReader) content() (Rule, bool) {
	h, ok := r.name()
	if !ok {
		return Rule{}, false
	}
	r.spaces()
	if !r.eat("::=") {
		return Rule{}, false
	}
	res := Rule{Head: Raw(h)}
	for {
		r.spaces()
		alt := []Sym{}
		for {
			s, ok := r.term()
			if !ok {
				return Rule{}, false
			}
			alt = append(alt, s)
			r.spaces()
			if r.i >= len(r.s) || !(r.at('<') || r.at('"') || r.at('\'')) {
				break
			}
		}
		res.Alts = append(res.Alts, alt)
		if !r.eat("|") {
			return res, true
		}
	}
}

// refBNF reads a text; ok is false if it does not conform.
func refBNF(text string, esc map[string]string) (g Gram, ok, unmapped bool) {
	r := &bnfReader{s: text, esc: esc}
	r.spaces()
	c, ok := r.content()
	if !ok {
		return nil, false, false
	}
	g = Gram{c}
	for r.i < len(text) {
		if !r.eat("\n") && !r.eat("\r\n") {
			return nil, false, false
		}
		r.spaces()
		if r.at('<') {
			if c, ok = r.content(); !ok {
				return nil, false, false
			}
			g = append(g, c)
		}
	}
	return g, true, r.unmapped
}

// ---------------------------------------------------------------- writer

// layout draws a legal way of writing a grammar.
func layout(t *rapid.T, g Gram) string {
	sb := &strings.Builder{}
	style := weighted(t, 15, 25, 60) // as printed, terse, free
	sp := func(usual int) {
		n := usual
		switch style {
		case 1:
			n = 0
		case 2:
			n = oneOf(t, 0, 0, 1, 1, 1, 2, 3, usual)
			if pct(t, 2) {
				n = rng(t, 8, 70)
			}
		}
		for ; n > 0; n-- {
			sb.WriteByte(' ')
		}
	}
	eolKind := weighted(t, 40, 30, 30)
	eol := func() {
		k := eolKind
		if k == 2 {
			k = uni(t, 2)
		}
		sb.WriteString([]string{"\n", "\r\n"}[k])
	}
	blanks := oneOf(t, 0, 0, 15, 50)
	for i, r := range g {
		if i > 0 {
			eol()
			for k := 0; k < 6 && pct(t, blanks); k++ {
				sp(0)
				eol()
			}
		}
		sp(0)
		sb.WriteString("<" + string(r.Head) + ">")
		sp(1)
		sb.WriteString("::=")
		for j, alt := range r.Alts {
			if j > 0 {
				sb.WriteByte('|')
			}
			sp(1)
			for k, s := range alt {
				if k > 0 {
					sp(1)
				}
				sb.WriteString(writeSym(t, s, style == 0))
			}
			if j < len(r.Alts)-1 {
				sp(1)
			} else {
				sp(0)
			}
		}
	}
	if pct(t, 40) {
		eol()
		for k := 0; k < 6 && pct(t, max(blanks, 20)); k++ {
			sp(0)
			eol()
		}
		sp(0)
	}
	return sb.String()
}

// writeSym draws a spelling of a symbol.
func writeSym(t *rapid.T, s Sym, plain bool) string {
	if s.K == KNon {
		return "<" + s.S + ">"
	}
	single := pct(t, 50)
	if plain {
		single = strings.Contains(s.S, `"`)
	}
	if strings.Contains(s.S, "'") {
		single = false
	}
	sb := strings.Builder{}
	q := byte('"')
	if single {
		q = '\''
	}
	sb.WriteByte(q)
	for i := 0; i < len(s.S); i++ {
		switch c := s.S[i]; {
		case c == '\t':
			sb.WriteString(`\t`)
		case c == '\n':
			sb.WriteString(`\n`)
		case c == '\r':
			sb.WriteString(`\r`)
		case c == '\\':
			sb.WriteString(`\\`)
		case c == '"' && (!single || pct(t, 50)):
			sb.WriteString(`\"`)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte(q)
	return sb.String()
}
