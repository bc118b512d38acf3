package main

// C11 C24: source kinds, chunking and failing readers.

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"reflect"
	"strings"
	"syscall"
	"testing/iotest"

	"github.com/TooManySugar/ll1parser/pkg/cst"
	"github.com/TooManySugar/ll1parser/pkg/parser"
	"pgregory.net/rapid"
)

// BigIn describes an input: pieces repeated.
type BigIn struct {
	Pre  Raw `json:"pre"`
	Mid  Raw `json:"mid"`
	N    int `json:"n"`
	Post Raw `json:"post"`
}

func (b BigIn) text() string {
	return string(b.Pre) + strings.Repeat(string(b.Mid), b.N) + string(b.Post)
}

type CaseSrc struct {
	G       Gram  `json:"g"`
	In      BigIn `json:"in"`
	Chunks  []int `json:"chunks"`          // sizes of successive reads, cyclic; 0 means (0, nil)
	EOFWith bool  `json:"eofwith"`         // last data together with io.EOF
	Zeros   int   `json:"zeros,omitempty"` // empty reads in a row, at most; 0 means 20
	Scratch bool  `json:"scratch"`         // scribble on the rest of the read buffer
	Slack   int   `json:"slack"`           // spare capacity of the byte slice
	Skip    int   `json:"skip"`            // bytes of the buffer read beforehand
	Bad     int   `json:"bad"`             // which invalid source to try
	FailAt  int   `json:"failat"`          // C24: offset of the failure
	With    bool  `json:"with"`            // C24: error together with the last data
	Err     int   `json:"err"`
	Then    int   `json:"then"` // C24: further reads: 0 same error, 1 EOF, 2 more data
}

// chunkReader hands out data as the case says.
type chunkReader struct {
	data    string
	chunks  []int
	eofWith bool
	scratch bool
	fail    error // instead of EOF
	with    bool  // error together with the last data
	then    int
	rest    string
	failed  bool
	i, zero int
	zeros   int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	if r.failed {
		switch r.then {
		case 1:
			return 0, io.EOF
		case 2:
			n := copy(p, r.rest)
			r.rest = r.rest[n:]
			if n == 0 {
				return 0, io.EOF
			}
			return n, nil
		}
		return 0, r.fail
	}
	if len(p) == 0 {
		return 0, nil
	}
	end := func(n int) (int, error) {
		if r.fail != nil {
			if n == 0 || r.with {
				r.failed = true
				return n, r.fail
			}
			return n, nil
		}
		if n == 0 || r.eofWith {
			return n, io.EOF
		}
		return n, nil
	}
	if r.data == "" {
		return end(0)
	}
	c := 1 << 30
	if len(r.chunks) > 0 {
		c = r.chunks[r.i%len(r.chunks)]
		r.i++
	}
	if c == 0 {
		if r.zero++; r.zero < max(r.zeros, 20) {
			if r.zeros > 0 {
				r.i-- // all of them in a row
			}
			return 0, nil
		}
		c = 1
	}
	n := copy(p[:min(c, len(p))], r.data)
	r.data = r.data[n:]
	if r.scratch {
		for i := n; i < len(p); i++ {
			p[i] = '#'
		}
	}
	if r.data == "" {
		return end(n)
	}
	return n, nil
}

// readers that would be taken for something else if only their looks counted
type lookalike struct{ *bytes.Buffer }
type sliceReader []byte

func (s *sliceReader) Read(p []byte) (int, error) {
	if len(*s) == 0 {
		return 0, io.EOF
	}
	n := copy(p, *s)
	*s = (*s)[n:]
	return n, nil
}

type valueReader struct{ r *strings.Reader }

func (v valueReader) Read(p []byte) (int, error) { return v.r.Read(p) }

// manyMethods has methods that say something else than Read.
type manyMethods struct{ r *strings.Reader }

func (m *manyMethods) Read(p []byte) (int, error) { return m.r.Read(p) }
func (m *manyMethods) Len() int                   { return 1 }
func (m *manyMethods) Size() int64                { return 2 }
func (m *manyMethods) String() string             { return "other" }
func (m *manyMethods) Bytes() []byte              { return []byte("other") }
func (m *manyMethods) Error() string              { return "other" }

// closer belongs to the caller, who may go on using it.
type closer struct {
	io.Reader
	closed bool
}

func (c *closer) Close() error {
	c.closed = true
	return nil
}

// types that hold a text but are no sources
type (
	namedString string
	namedBytes  []byte
	stringer    struct{ s string }
	texter      struct{ s string }
	byteReader  struct{ *strings.Reader }
	runeScanner struct{ r *strings.Reader }
)

func (s stringer) String() string                        { return s.s }
func (s texter) MarshalText() ([]byte, error)            { return []byte(s.s), nil }
func (s texter) Bytes() []byte                           { return []byte(s.s) }
func (b byteReader) Read()                               {}
func (b runeScanner) ReadRune() (rune, int, error)       { return b.r.ReadRune() }
func (b runeScanner) UnreadRune() error                  { return b.r.UnreadRune() }
func (b runeScanner) WriteTo(w io.Writer) (int64, error) { return b.r.WriteTo(w) }

type outcome struct {
	tree  *RT
	names Names
	err   string
}

func run1(p parser.LL1Parser, src any) (outcome, error) {
	n, nm, perr, err := parse(p, src)
	if err != nil {
		return outcome{}, err
	}
	if perr != nil {
		return outcome{err: "error: " + perr.Error()}, nil
	}
	return outcome{tree: snap(n), names: nm}, nil
}

func (a outcome) same(b outcome) error {
	if a.err != b.err {
		return fmt.Errorf("%q instead of %q", a.err, b.err)
	}
	if a.err != "" {
		return nil
	}
	if !eqRT(a.tree, b.tree) {
		return fmt.Errorf("another tree")
	}
	return sameNames(a.names, b.names)
}

var listGram = Gram{{"S", [][]Sym{{T("a"), N("S")}, {Eps}}}}

// genSrcInput draws a grammar and an input, small or crossing buffer sizes.
func genSrcInput(t *rapid.T, c *CaseSrc) {
	if pct(t, 7) {
		c.G = listGram
		n := oneOf(t, 510, 511, 512, 513, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 5000, 8192, 9000)
		if pct(t, 3) {
			n = oneOf(t, 32767, 65535, 65536, 65537)
		}
		c.In = BigIn{Mid: "a", N: n}
		if pct(t, 35) {
			c.In.Post = Raw(oneOf(t, "b", "\x00", "ab", "\r\n", "\n", "\x1a"))
		}
		if pct(t, 10) {
			c.In.Pre = Raw(oneOf(t, "b", "\xef\xbb\xbf", "\n"))
		}
		return
	}
	c.G = genLL1(t, GOpt{Small: true, Prod: true})
	a := analyze(c.G)
	s := genInput(t, a, c.G.bytesOf())
	if a.prod[0] && pct(t, 40) {
		s = genSentence(t, a, oneOf(t, 5, 20, 100, 400))
	}
	c.In = BigIn{Mid: Raw(s), N: 1}
}

func genChunks(t *rapid.T, c *CaseSrc) {
	for n := oneOf(t, 0, 1, 1, 2, 4); n > 0; n-- {
		c.Chunks = append(c.Chunks, oneOf(t, 0, 1, 1, 2, 3, 7, 64, 511, 512, 513, 4096))
	}
	if len(c.In.text()) > 2000 {
		for i := range c.Chunks {
			c.Chunks[i] = max(c.Chunks[i], 61)
		}
	}
	if pct(t, 4) { // a long time without data
		c.Zeros = oneOf(t, 99, 100, 101, 102, 130, 260, 1100)
		k := uni(t, len(c.Chunks)+1)
		c.Chunks = append(c.Chunks[:k:k], append([]int{0}, c.Chunks[k:]...)...)
	}
	c.EOFWith = pct(t, 50)
	c.Scratch = pct(t, 30)
}

var failErrs = []error{
	errors.New("disk on fire"),
	io.ErrUnexpectedEOF,
	io.ErrClosedPipe,
	fmt.Errorf("wrapped: %w", io.EOF),
	context.Canceled,
	os.ErrDeadlineExceeded,
	errors.New("EOF"),
	errors.New(""),
	&os.PathError{Op: "read", Path: "x", Err: errors.New("bad sector")},
	io.ErrNoProgress,
	errTyped{},
	iotest.ErrTimeout,
	os.ErrClosed,
	net.ErrClosed,
	syscall.EINTR,
	syscall.EAGAIN,
	syscall.EPIPE,
	syscall.ECONNRESET,
	context.DeadlineExceeded,
	io.ErrShortBuffer,
	io.ErrShortWrite,
	bufio.ErrBufferFull,
	bufio.ErrTooLong,
	&os.PathError{Op: "read", Path: "x", Err: io.EOF},
	errors.Join(io.EOF, errors.New("and more")),
	errFlaky{},
	(*errNilPtr)(nil),
}

// errFlaky says of itself that it is harmless.
type errFlaky struct{}

func (errFlaky) Error() string   { return "flaky" }
func (errFlaky) Temporary() bool { return true }
func (errFlaky) Timeout() bool   { return true }
func (errFlaky) Is(e error) bool { return e == io.EOF }

// errNilPtr is a failure whose value is a nil pointer.
type errNilPtr struct{}

func (*errNilPtr) Error() string { return "nil pointer" }

type errTyped struct{}

func (errTyped) Error() string { return "typed" }

func init() {
	register(&Prop{
		ID:       "C11",
		Rule:     "a case is an LL(1) grammar, an input (sentence, near miss, or a long one around 512/1024/4096/65536 bytes), a way to split it into reads, spare slice capacity, a consumed buffer prefix and an invalid source; each input is parsed as 20-22 kinds of source, some of them partly read before; non-trivial: the input has at least 2 bytes",
		Quick:    3500,
		Thorough: 100000,
		New:      func() any { return &CaseSrc{} },
		Gen: func(t *rapid.T) any {
			c := &CaseSrc{}
			genSrcInput(t, c)
			genChunks(t, c)
			c.Slack = oneOf(t, 0, 1, 8, 600)
			c.Skip = oneOf(t, 0, 1, 5, 600)
			c.Bad = uni(t, 64)
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseSrc)
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			in := c.In.text()
			ctx := func(kind string, err error) error {
				return fmt.Errorf("%s: %v\ngrammar %v\ninput %d bytes %q", kind, err, c.G, len(in), clip(in, 300))
			}
			want, err := run1(p, in)
			if err != nil {
				return ctx("string", err)
			}
			if want.err != "" {
				o.Label("input refused")
			} else {
				o.Label("input accepted")
			}
			if len(in) >= 2 {
				o.NonTrivial()
			}
			if len(in) >= 512 {
				o.Label("input: >=512 bytes")
			}
			// byte slice with spare capacity
			mk := func(slack int) []byte {
				b := make([]byte, len(in), len(in)+slack)
				copy(b, in)
				for i := len(in); i < cap(b); i++ {
					b[:cap(b)][i] = byte('A' + i%26)
				}
				return b
			}
			sl := mk(c.Slack)
			got, err := run1(p, sl)
			if err == nil {
				err = got.same(want)
			}
			if err == nil && string(sl) != in {
				err = errors.New("the slice was modified")
			}
			for i := len(in); err == nil && i < cap(sl); i++ {
				if sl[:cap(sl)][i] != byte('A'+i%26) {
					err = errors.New("memory behind the slice was modified")
				}
			}
			if err != nil {
				return ctx("byte slice", err)
			}
			// buffer with a consumed prefix
			buf := bytes.NewBuffer(nil)
			buf.WriteString(strings.Repeat("z", c.Skip))
			buf.WriteString(in)
			buf.Next(c.Skip)
			for pass := 0; pass < 2; pass++ {
				got, err = run1(p, buf)
				if err == nil {
					err = got.same(want)
				}
				if err == nil && (buf.Len() != len(in) || buf.String() != in) {
					err = fmt.Errorf("the buffer was consumed or modified: %d bytes left of %d", buf.Len(), len(in))
				}
				if err != nil {
					return ctx("bytes.Buffer", err)
				}
			}
			// readers
			sr := sliceReader(mk(0))
			kinds := []struct {
				name string
				src  any
			}{
				{"chunked reader", &chunkReader{data: in, chunks: c.Chunks, zeros: c.Zeros, eofWith: c.EOFWith, scratch: c.Scratch}},
				{"strings.Reader", strings.NewReader(in)},
				{"bytes.Reader", bytes.NewReader(mk(0))},
				{"bufio.Reader", bufio.NewReaderSize(strings.NewReader(in), 16+c.Slack)},
				{"DataErrReader", iotest.DataErrReader(strings.NewReader(in))},
				{"HalfReader", iotest.HalfReader(strings.NewReader(in))},
				{"LimitReader", io.LimitReader(strings.NewReader(in+"tail"), int64(len(in)))},
				{"MultiReader", io.MultiReader(strings.NewReader(in[:len(in)/2]), strings.NewReader(in[len(in)/2:]))},
				{"embedded buffer", lookalike{bytes.NewBufferString(in)}},
				{"slice type with Read", &sr},
				{"value type with Read", valueReader{strings.NewReader(in)}},
			}
			// readers of which a part was read before
			skip := strings.Repeat("z", c.Skip)
			ssr, sbr := strings.NewReader(skip+in), bytes.NewReader([]byte(skip+in))
			sbf := bufio.NewReaderSize(strings.NewReader(skip+in), 16+c.Skip)
			sec := io.NewSectionReader(strings.NewReader(in+skip+in+"zz"), int64(len(in)), int64(c.Skip+len(in)))
			for _, r := range []io.Reader{ssr, sbr, sbf, sec} {
				if _, err := io.CopyN(io.Discard, r, int64(c.Skip)); err != nil {
					return &harnessError{err.Error()}
				}
			}
			type ks = struct {
				name string
				src  any
			}
			kinds = append(kinds, ks{"strings.Reader partly read", ssr}, ks{"bytes.Reader partly read", sbr},
				ks{"bufio.Reader partly read", sbf}, ks{"SectionReader partly read", sec},
				ks{"reader with other methods", &manyMethods{strings.NewReader(in)}})
			cl := &closer{Reader: strings.NewReader(in)}
			kinds = append(kinds, ks{"reader that can be closed", cl})
			if c.Bad%32 == 0 {
				f, err := os.CreateTemp("", "c11")
				if err != nil {
					return &harnessError{err.Error()}
				}
				defer f.Close()
				os.Remove(f.Name())
				if _, err := f.WriteString(skip + in); err != nil {
					return &harnessError{err.Error()}
				}
				if _, err := f.Seek(int64(c.Skip), io.SeekStart); err != nil {
					return &harnessError{err.Error()}
				}
				kinds = append(kinds, ks{"os.File partly read", f})
				r, w := io.Pipe()
				go func() {
					io.Copy(w, strings.NewReader(in))
					w.Close()
				}()
				defer r.Close()
				kinds = append(kinds, ks{"io.Pipe", r})
			}
			if in == "" {
				kinds = append(kinds, ks{"nil byte slice", []byte(nil)}, ks{"zero buffer", new(bytes.Buffer)})
			}
			if len(in) < 300 {
				kinds = append(kinds, struct {
					name string
					src  any
				}{"OneByteReader", iotest.OneByteReader(strings.NewReader(in))})
			}
			for _, k := range kinds {
				got, err := run1(p, k.src)
				if err == nil {
					err = got.same(want)
				}
				if err != nil {
					return ctx(k.name, err)
				}
			}
			if cl.closed {
				return ctx("reader that can be closed", errors.New("was closed"))
			}
			// not a source
			num := 5
			bads := []any{nil, (*bytes.Buffer)(nil), 0, 12.5, true, 'a', byte('a'), []string{in}, []rune(in), &in, &sl, num, &num,
				struct{}{}, map[string]int{}, func() {}, errors.New(in), [3]byte{'a', 'a', 'a'}, make(chan byte), []any{in}, *bytes.NewBufferString(in), c.G.ToBNF(), fmt.Stringer(c.G), [][]byte{sl}, uintptr(1),
				namedString(in), namedBytes(in), stringer{in}, &stringer{in}, texter{in}, byteReader{strings.NewReader(in)}, runeScanner{strings.NewReader(in)}, new(strings.Builder), json.RawMessage(in), [1]string{in}, []error{errors.New(in)}, io.NewOffsetWriter(nil, 0), reflect.ValueOf(in), (*namedString)(&in)}
			if c.Bad%4 > 0 {
				bads = bads[c.Bad%len(bads):][:1]
			}
			for _, bad := range bads {
				n, nm, perr := p.Parse(bad)
				if perr == nil || n != nil || nm != nil {
					return ctx(fmt.Sprintf("invalid source %T", bad), fmt.Errorf("tree %v, names %v, error %v", n != nil, nm != nil, perr))
				}
			}
			// and the parser still works
			got, err = run1(p, in)
			if err == nil {
				err = got.same(want)
			}
			if err != nil {
				return ctx("string again", err)
			}
			return nil
		},
	})

	register(&Prop{
		ID:       "C24",
		Rule:     "a case is an LL(1) grammar, an input, a reader that splits it in a drawn way and fails after a drawn number of bytes (often exactly where the bytes read so far form a sentence) with one of 12 errors, alone or with the last data; then the same parser parses good sources; non-trivial: the bytes read before the failure are a sentence",
		Quick:    9000,
		Thorough: 300000,
		New:      func() any { return &CaseSrc{} },
		Gen: func(t *rapid.T) any {
			c := &CaseSrc{}
			genSrcInput(t, c)
			genChunks(t, c)
			in := c.In.text()
			switch weighted(t, 30, 30, 40) {
			case 0:
				c.FailAt = len(in)
			case 1:
				c.FailAt = uni(t, len(in)+1)
			default:
				c.FailAt = len(in)
				if len(in) < 500 {
					at := newEarley(analyze(c.G)).run(in).acceptAt
					if len(at) > 0 {
						c.FailAt = at[uni(t, len(at))]
					}
				} else {
					c.FailAt = min(len(in), oneOf(t, 0, 1, 511, 512, 513, 1024, 4096))
				}
			}
			c.With = pct(t, 50)
			c.Err = uni(t, len(failErrs))
			c.Then = uni(t, 3)
			return c
		},
		Check: func(ci any, o *Obs) error {
			c := ci.(*CaseSrc)
			p, _, _, err := build(c.G)
			if err != nil {
				o.Label("refused by the library")
				return nil
			}
			in := c.In.text()
			at := min(c.FailAt, len(in))
			pre := in[:at]
			want, err := run1(p, pre)
			if err != nil {
				return err
			}
			if want.err == "" {
				o.NonTrivial()
				o.Label("read so far: a sentence")
			} else {
				o.Label("read so far: no sentence")
			}
			if at == 0 {
				o.Label("fails at once")
			}
			full, err := run1(p, in)
			if err != nil {
				return err
			}
			fe := failErrs[c.Err%len(failErrs)]
			rd := func() *chunkReader {
				return &chunkReader{data: pre, chunks: c.Chunks, zeros: c.Zeros, scratch: c.Scratch, fail: fe, with: c.With, then: c.Then, rest: in[at:]}
			}
			srcs := []struct {
				name string
				src  io.Reader
			}{
				{"failing reader", rd()},
				{"failing reader behind bufio", bufio.NewReaderSize(rd(), 16)},
				{"failing reader behind io.MultiReader", io.MultiReader(strings.NewReader(""), rd())},
			}
			for _, s := range srcs {
				n, nm, perr := p.Parse(s.src)
				var bad error
				switch {
				case perr == nil:
					bad = fmt.Errorf("parsed %v", show(n))
				case n != nil || nm != nil:
					bad = errors.New("error together with a tree or names")
				case perr != fe && !errors.Is(perr, fe):
					bad = fmt.Errorf("error %q instead of the reader's %q", perr, fe)
				}
				if bad != nil {
					return fmt.Errorf("%s after %d bytes: %v\ngrammar %v\ninput %d bytes %q", s.name, at, bad, c.G, len(in), clip(in, 300))
				}
			}
			// later sources are unaffected
			for _, x := range []struct {
				src  any
				want outcome
			}{{pre, want}, {in, full}, {strings.NewReader(in), full}} {
				got, err := run1(p, x.src)
				if err == nil {
					err = got.same(x.want)
				}
				if err != nil {
					return fmt.Errorf("after a failed source: %v\ngrammar %v\ninput %q", err, c.G, clip(in, 300))
				}
			}
			return nil
		},
	})
}

func show(n cst.Node) string {
	if n == nil {
		return "nothing"
	}
	return clip(snap(n).String(), 300)
}
