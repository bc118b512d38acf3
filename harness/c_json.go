package main

// C21: the JSON example, against an independent recogniser.

import (
	"bytes"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"

	"github.com/TooManySugar/ll1parser/pkg/bnf/fromcst"
	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

// jsonReader reads the subset of JSON the example supports: printable ASCII,
// space, LF and CRLF as whitespace, none inside an empty array.
type jsonReader struct {
	s    string
	i    int
	lax  bool // three hex digits after \u suffice (known finding)
	deep int
	keys []string // outline
}

func (r *jsonReader) eat(w string) bool {
	if strings.HasPrefix(r.s[r.i:], w) {
		r.i += len(w)
		return true
	}
	return false
}

func (r *jsonReader) ws() {
	for r.eat(" ") || r.eat("\n") || r.eat("\r\n") {
	}
}

func isHex(c byte) bool { return isDigit(c) || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F' }

func (r *jsonReader) str() (string, bool) {
	if !r.eat(`"`) {
		return "", false
	}
	st := r.i
	for r.i < len(r.s) {
		c := r.s[r.i]
		r.i++
		switch {
		case c == '"':
			return r.s[st : r.i-1], true
		case c == '\\':
			if r.i >= len(r.s) {
				return "", false
			}
			e := r.s[r.i]
			r.i++
			if e == 'u' {
				n := 4
				if r.lax {
					n = 3
				}
				for ; n > 0; n-- {
					if r.i >= len(r.s) || !isHex(r.s[r.i]) {
						return "", false
					}
					r.i++
				}
			} else if !strings.ContainsRune(`"\/bfnrt`, rune(e)) {
				return "", false
			}
		case c < 32 || c > 126:
			return "", false
		}
	}
	return "", false
}

func (r *jsonReader) digits() bool {
	st := r.i
	for r.i < len(r.s) && isDigit(r.s[r.i]) {
		r.i++
	}
	return r.i > st
}

func (r *jsonReader) number() bool {
	r.eat("-")
	if !r.eat("0") && !r.digits() {
		return false
	}
	if r.eat(".") && !r.digits() {
		return false
	}
	if r.eat("e") || r.eat("E") {
		if !r.eat("+") {
			r.eat("-")
		}
		return r.digits()
	}
	return true
}

func (r *jsonReader) value() bool {
	if r.i >= len(r.s) {
		return false
	}
	switch c := r.s[r.i]; {
	case c == '{':
		r.i++
		r.deep++
		r.ws()
		if !r.eat("}") {
			for {
				k, ok := r.str()
				if !ok {
					return false
				}
				r.keys = append(r.keys, strings.Repeat("  ", r.deep)+k)
				r.ws()
				if !r.eat(":") {
					return false
				}
				r.ws()
				if !r.value() {
					return false
				}
				r.ws()
				if r.eat("}") {
					break
				}
				if !r.eat(",") {
					return false
				}
				r.ws()
			}
		}
		r.deep--
		return true
	case c == '[':
		r.i++
		r.deep++
		if !r.eat("]") {
			for {
				r.ws()
				if !r.value() {
					return false
				}
				r.ws()
				if r.eat("]") {
					break
				}
				if !r.eat(",") {
					return false
				}
			}
		}
		r.deep--
		return true
	case c == '"':
		_, ok := r.str()
		return ok
	case c == '-' || isDigit(c):
		return r.number()
	}
	return r.eat("true") || r.eat("false") || r.eat("null")
}

func readJSON(s string, lax bool) (keys []string, ok bool) {
	r := &jsonReader{s: s, lax: lax}
	r.ws()
	if !r.value() {
		return nil, false
	}
	r.ws()
	return r.keys, r.i == len(s)
}

// ---- the library's side

type jsonPipe struct {
	p     parser.LL1Parser
	names Names
	err   error
	bnf   []byte
}

var theJSON *jsonPipe

func jsonPipeline() *jsonPipe {
	if theJSON != nil {
		return theJSON
	}
	theJSON = &jsonPipe{}
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_REPO_DIR"), "examples/json/json.bnf"))
	if err != nil {
		theJSON.err = bug("%v", err)
		return theJSON
	}
	theJSON.bnf = b
	sp, err := selfParser()
	if err != nil {
		theJSON.err = fmt.Errorf("no table for the built-in grammar: %v", err)
		return theJSON
	}
	n, _, perr, err := parse(sp, string(b))
	if err == nil {
		err = perr
	}
	if err != nil {
		theJSON.err = fmt.Errorf("json.bnf does not parse: %v", err)
		return theJSON
	}
	ast, err := fromcst.SelfCSTtoASTBindings().ToAST(n, string(b))
	if err != nil {
		theJSON.err = fmt.Errorf("json.bnf does not convert: %v", err)
		return theJSON
	}
	p, _, names, err := buildBNF(*ast)
	if err != nil {
		theJSON.err = fmt.Errorf("no table for json.bnf: %v", err)
		return theJSON
	}
	theJSON.p, theJSON.names = p, names
	return theJSON
}

// outline lists the keys below a node by the names of the rules.
func (j *jsonPipe) outline(n cst.Node, in string, deep int, out *[]string) {
	switch j.names[n.Type()] {
	case "key-value":
		s := n.Childs()[0]
		*out = append(*out, strings.Repeat("  ", deep)+in[s.Pos()+1:s.End()-1])
	case "object", "array":
		deep++
	}
	for _, k := range n.Childs() {
		j.outline(k, in, deep, out)
	}
}

type CaseJSON struct {
	Doc  Raw  `json:"doc"`
	Exec bool `json:"exec,omitempty"`
}

const jsonKnownID = "json-u-3hex"

// knownListed tells whether the known-findings file lists an entry.
func knownListed(prop, id string) bool {
	b, err := os.ReadFile(filepath.Join(os.Getenv("VERIF_HOME"), "known-findings.txt"))
	if err != nil {
		return false
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: property="+prop+" id="+id+" ") {
			return true
		}
	}
	return false
}

var jsonTolerate *bool

// runExample runs the built example on a document.
func runExample(j *jsonPipe, doc string) (ok bool, keys []string, err error) {
	dir, err := os.MkdirTemp("", "json")
	if err != nil {
		return false, nil, bug("%v", err)
	}
	defer os.RemoveAll(dir)
	if err := errors.Join(os.WriteFile(filepath.Join(dir, "json.bnf"), j.bnf, 0o644),
		os.WriteFile(filepath.Join(dir, "test.json"), []byte(doc), 0o644)); err != nil {
		return false, nil, bug("%v", err)
	}
	cmd := exec.Command(os.Getenv("VERIF_JSONEX"))
	cmd.Dir = dir
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err = cmd.Run()
	if err != nil {
		var ee *exec.ExitError
		if !errors.As(err, &ee) {
			return false, nil, bug("running the example: %v", err)
		}
		if s := se.String(); strings.Contains(s, "goroutine ") && strings.Contains(s, ".go:") {
			return false, nil, fmt.Errorf("the example crashes: %s", clip(s, 2000))
		}
		return false, nil, nil
	}
	_, rest, found := strings.Cut(so.String(), "JSON key structure:\n")
	if !found {
		return false, nil, fmt.Errorf("the example succeeds without printing the outline: %q", clip(so.String(), 500))
	}
	if rest != "" {
		keys = strings.Split(strings.TrimSuffix(rest, "\n"), "\n")
	}
	return true, keys, nil
}

func checkJSON(c *CaseJSON, o *Obs) error {
	j := jsonPipeline()
	if j.err != nil {
		return j.err
	}
	if jsonTolerate == nil {
		b := knownListed("C21", jsonKnownID)
		jsonTolerate = &b
	}
	doc := string(c.Doc)
	keys, want := readJSON(doc, false)
	laxKeys, lax := readJSON(doc, true)
	judge := func(who string, ok bool, got []string) error {
		if ok && !want {
			if lax && *jsonTolerate {
				o.Label("known finding %s", jsonKnownID)
				keys = laxKeys
			} else {
				return fmt.Errorf("%s accepts %q, which is not JSON of the supported kind", who, doc)
			}
		}
		if !ok && want {
			return fmt.Errorf("%s refuses %q", who, doc)
		}
		if ok && strings.Join(got, "\n") != strings.Join(keys, "\n") {
			return fmt.Errorf("%s outlines %q as %q, want %q", who, doc, got, keys)
		}
		return nil
	}
	n, _, perr, err := parse(j.p, doc)
	if err != nil {
		return err
	}
	var got []string
	if perr == nil {
		j.outline(n, doc, 0, &got)
	}
	if err := judge("the pipeline", perr == nil, got); err != nil {
		return err
	}
	if want {
		o.Label("JSON")
		if len(keys) > 0 || strings.ContainsAny(doc, "[{") {
			o.NonTrivial()
		}
	} else {
		o.Label("not JSON")
		if len(doc) > 3 {
			o.NonTrivial()
		}
	}
	if c.Exec {
		o.Label("example program run")
		ok, got, err := runExample(j, doc)
		if err != nil {
			return err
		}
		return judge("the example", ok, got)
	}
	return nil
}

// ---- generator

func jsonWS(t *rapid.T, style int) string {
	if style == 0 {
		return ""
	}
	s := ""
	for k := oneOf(t, 0, 0, 1, 1, 2, 4); k > 0; k-- {
		s += oneOf(t, " ", " ", "\n", "\r\n")
	}
	return s
}

func jsonStr(t *rapid.T) string {
	sb := strings.Builder{}
	sb.WriteByte('"')
	for k := oneOf(t, 0, 1, 1, 2, 3, 5, 12); k > 0; k-- {
		switch weighted(t, 45, 30, 18, 7) {
		case 0:
			sb.WriteByte(oneOf[byte](t, 'a', 'b', 'k', 'Z', 'e', '0', '7', 'u', 'n', 't'))
		case 1:
			c := byte(32 + uni(t, 95))
			if c == '"' || c == '\\' {
				c = '\''
			}
			sb.WriteByte(c)
		case 2:
			sb.WriteString(oneOf(t, `\"`, `\\`, `\/`, `\b`, `\f`, `\n`, `\r`, `\t`))
		default:
			sb.WriteString(`\u`)
			for i := 0; i < 4; i++ {
				sb.WriteByte("0123456789abcdefABCDEF"[uni(t, 22)])
			}
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func jsonNum(t *rapid.T) string {
	s := oneOf(t, "", "", "-") + oneOf(t, "0", "1", "9", "10", "907", "123456789012345678901234567890", "5")
	s += oneOf(t, "", "", "", ".0", ".5", ".007", ".10")
	return s + oneOf(t, "", "", "", "", "e1", "E10", "e+5", "E-05", "e00")
}

func jsonVal(t *rapid.T, sb *strings.Builder, deep, style int) {
	k := weighted(t, 26, 24, 18, 16, 16)
	if deep <= 0 && k < 2 {
		k += 2
	}
	switch k {
	case 0, 1:
		n := oneOf(t, 0, 1, 1, 2, 3, 5)
		if k == 0 {
			sb.WriteByte('{')
			sb.WriteString(jsonWS(t, style))
		} else {
			sb.WriteByte('[')
		}
		for i := 0; i < n; i++ {
			if i > 0 {
				sb.WriteByte(',')
			}
			if k == 0 {
				if i > 0 {
					sb.WriteString(jsonWS(t, style))
				}
				sb.WriteString(jsonStr(t))
				sb.WriteString(jsonWS(t, style))
				sb.WriteByte(':')
			}
			sb.WriteString(jsonWS(t, style))
			jsonVal(t, sb, deep-1, style)
			sb.WriteString(jsonWS(t, style))
		}
		sb.WriteByte("}]"[k])
	case 2:
		sb.WriteString(jsonStr(t))
	case 3:
		sb.WriteString(jsonNum(t))
	default:
		sb.WriteString(oneOf(t, "true", "false", "null"))
	}
}

var jsonTokens = []string{"{", "}", "[", "]", "[ ]", "{ }", ",", ":", "\"", "\"\"", "\\", "\t", "\r", "\n", "\r\n", " ", "0", "01", "1", "-", "+", "+1", ".", "1.", ".5", "e", "1e", "1e+",
	"nul", "null", "True", "tru", "\"\\u12\"", "\"\\u123\"", "\"\\u123g\"", "\"\\x\"", "'a'", "\x80", "é", "\x00", "//", "/**/", "\x7f", "NaN", "\"a\":1", "\"a\"", "\x1f", "\v", "\f"}

func genJSON(t *rapid.T) any {
	c := &CaseJSON{Exec: pct(t, 12)}
	sb := &strings.Builder{}
	style := uni(t, 3)
	if pct(t, 3) { // deep
		n := rng(t, 5, 400)
		if pct(t, 6) {
			n = rng(t, 1000, 3000)
		}
		kind := uni(t, 3)
		end := ""
		for i := 0; i < n; i++ {
			if kind == 0 || kind == 2 && i%2 == 0 {
				sb.WriteString("[")
				end = "]" + end
			} else {
				sb.WriteString(`{"k":`)
				end = "}" + end
			}
		}
		jsonVal(t, sb, 1, style)
		sb.WriteString(end)
	} else if uni(t, 200) == 0 { // long
		var v strings.Builder
		jsonVal(t, &v, 2, style)
		b, k := "[]", ""
		if pct(t, 50) {
			b, k = "{}", `"key":`
		}
		n := oneOf(t, 1000, 20000, 70000) / (v.Len() + len(k) + 1)
		sb.WriteString(b[:1] + strings.Repeat(k+v.String()+",", n) + k + v.String() + b[1:])
	} else {
		sb.WriteString(jsonWS(t, style))
		jsonVal(t, sb, oneOf(t, 0, 1, 2, 3, 5), style)
		sb.WriteString(jsonWS(t, style))
	}
	s := sb.String()
	if pct(t, 50) {
		for k := oneOf(t, 1, 1, 1, 2, 3); k > 0; k-- {
			switch weighted(t, 40, 45, 15) {
			case 0:
				s = mutate(t, s, []byte("{}[],:\"\\ \n\r\t01-+.eEtu\x00\x80a'"))
			case 1:
				i := uni(t, len(s)+1)
				j := i
				if pct(t, 40) && i < len(s) {
					j = i + 1
				}
				s = s[:i] + jsonTokens[uni(t, len(jsonTokens))] + s[j:]
			default:
				s = s[:uni(t, len(s)+1)]
			}
		}
	}
	c.Doc = Raw(s)
	return c
}

func init() {
	register(&Prop{
		ID:       "C21",
		Rule:     "a case is a JSON document in drawn layout (nested up to 400, rarely 3000 deep, rarely 70000 bytes long; all escapes and number forms), half of them altered; the verdict and key outline of the pipeline over the example's own json.bnf, and for a share of the cases of the built example program run in a scratch directory, are compared with an independent recogniser; non-trivial: an accepted document with an object or array, or a refused one longer than three bytes",
		Quick:    2800,
		Thorough: 60000,
		New:      func() any { return &CaseJSON{} },
		Gen:      genJSON,
		Check:    func(ci any, o *Obs) error { return checkJSON(ci.(*CaseJSON), o) },
		EnumDesc: "all documents of up to two of the listed tokens, alone, in an array and as an object's value; all one-byte documents and one-byte strings",
		Enum: func(tier string, k, n int, yield func(any) bool) {
			i := 0
			put := func(s string) bool {
				i++
				return i%n != k || yield(&CaseJSON{Doc: Raw(s), Exec: i/n%40 == 0})
			}
			for b := 0; b < 256; b++ {
				for _, w := range []string{"", "\"", "\"\\", "1", "[", " "} {
					if !put(w+string([]byte{byte(b)})) || !put(w+string([]byte{byte(b)})+"\"") || !put(w+string([]byte{byte(b)})+"]") {
						return
					}
				}
			}
			for _, a := range append([]string{""}, jsonTokens...) {
				for _, b := range append([]string{""}, jsonTokens...) {
					if !put(a+b) || !put("["+a+b+"]") || !put("{\"k\":"+a+b+"}") || !put("{"+a+b+"}") || !put("\""+a+b+"\"") {
						return
					}
				}
			}
		},
		Known: func() ([]string, error) {
			if !knownListed("C21", jsonKnownID) {
				return nil, nil
			}
			j := jsonPipeline()
			if j.err != nil {
				return nil, nil // the cases report it
			}
			const doc = `"\u123"`
			ok, _, err := runExample(j, doc)
			if err != nil {
				return nil, err
			}
			if ok {
				return []string{"id=" + jsonKnownID + " the JSON example accepts the invalid document " + doc + ": json.bnf asks for three hex digits after \\u instead of four"}, nil
			}
			return nil, nil
		},
	})
}
