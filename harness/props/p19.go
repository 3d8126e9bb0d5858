package props

import (
	"bytes"
	"fmt"
	"io"
	"time"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P19: errors of the destination are never swallowed.

type outCase struct {
	Src  []byte
	Doc  *Doc // if not nil: built, not parsed
	Tape []byte
	Fn   int    // the serialising call
	Node int    // the node, where it takes one
	How  string // the kind of writer
	At   []int  // where it fails
}

// sink is a destination that accepts up to limit bytes
type sink struct {
	buf   bytes.Buffer
	limit int // < 0: everything
	how   string
	fails int
	err   error
	calls int
}

func (s *sink) Write(p []byte) (int, error) {
	s.calls++
	if s.limit < 0 || s.buf.Len()+len(p) <= s.limit || s.how == "once" && s.fails > 0 {
		if s.limit >= 0 && s.how == "short" && len(p) > 1 && s.buf.Len()+len(p) == s.limit {
			// fits
		}
		return s.buf.Write(p)
	}
	s.fails++
	n := s.limit - s.buf.Len()
	if n < 0 {
		n = 0
	}
	switch s.how {
	case "full": // an error along with everything written
		s.buf.Write(p)
		return len(p), s.err
	case "short": // fewer bytes, no error
		s.limit = -1
		s.buf.Write(p[:n])
		return n, nil
	case "nothing":
		return 0, s.err
	}
	s.buf.Write(p[:n])
	return n, s.err
}

// stringSink also has WriteString
type stringSink struct{ sink }

func (s *stringSink) WriteString(str string) (int, error) { return s.Write([]byte(str)) }

// byteSink takes the output apart
type byteSink struct {
	b []byte
}

func (s *byteSink) Write(p []byte) (int, error) {
	for i := range p {
		s.b = append(s.b, p[i])
		p[i] ^= 0 // does not change it
	}
	return len(p), nil
}

func serialise(doc *helium.Document, n helium.Node, fn int, w io.Writer) error {
	switch fn {
	case 0:
		return doc.XML(w)
	case 1:
		return (&helium.Dumper{}).DumpDoc(w, doc)
	case 2:
		return (&helium.Dumper{}).DumpNode(w, n)
	default:
		if e, ok := n.(*helium.Element); ok {
			return e.XML(w)
		}
		return (&helium.Dumper{}).DumpNode(w, n)
	}
}

var sinkKinds = []string{"partial", "partial", "nothing", "full", "once", "short"}

func checkSink(c outCase) Out {
	out := Out{}
	var doc *helium.Document
	var err error
	if c.Doc != nil {
		doc, _, err = build(c.Doc, &tape{b: c.Tape})
	} else {
		doc, err = helium.Parse(c.Src)
	}
	if err != nil {
		out.Labels = []string{"no document"}
		return out
	}
	all, err := preorder(doc)
	if err != nil {
		out.Err = err
		return out
	}
	n := all[abs(c.Node)%len(all)]
	if c.Fn < 2 {
		n = doc
	}
	ok := &sink{limit: -1}
	if err := serialise(doc, n, c.Fn, ok); err != nil {
		out.Labels = []string{"can not be serialised"}
		return out
	}
	want := ok.buf.Bytes()
	what := fmt.Sprintf("%s, by call %d", nodeSig(n), c.Fn)
	out.Sample = fmt.Sprintf("%s, %s at %v: %s", what, c.How, c.At, want)
	out.NonTrivial = len(want) > 30
	out.Labels = append(out.Labels, c.How, fmt.Sprintf("call %d", c.Fn))
	// other destinations get the same
	bs := &byteSink{}
	if err := serialise(doc, n, c.Fn, bs); err != nil || !bytes.Equal(bs.b, want) {
		out.Err = errorf("%s: another writer gets another output (%v): %s", what, err, diffLines(string(want), string(bs.b)))
		return out
	}
	var ss stringSink
	ss.limit = -1
	if err := serialise(doc, n, c.Fn, &ss); err != nil || !bytes.Equal(ss.buf.Bytes(), want) {
		out.Err = errorf("%s: a writer with WriteString gets another output (%v): %s", what, err, diffLines(string(want), ss.buf.String()))
		return out
	}
	pr, pw := io.Pipe()
	go func() {
		pw.CloseWithError(serialise(doc, n, c.Fn, pw))
	}()
	if got, err := io.ReadAll(pr); err != nil || !bytes.Equal(got, want) {
		out.Err = errorf("%s: a pipe gets another output (%v): %s", what, err, diffLines(string(want), string(got)))
		return out
	}
	if c.Fn < 2 {
		if s, err := doc.XMLString(); err != nil || s != string(want) {
			out.Err = errorf("XMLString is not what is written (%v): %s", err, diffLines(string(want), s))
			return out
		}
	}
	if len(want) == 0 {
		return out
	}
	at := map[int]bool{0: true, len(want) - 1: true, len(want) / 2: true}
	if len(want) < 120 {
		for i := range want {
			at[i] = true
		}
	}
	for _, i := range c.At {
		at[abs(i)%len(want)] = true
	}
	for i := range at {
		var s io.Writer
		k := sink{limit: i, how: c.How, err: walkErr(i + c.Node)}
		p := &k
		s = p
		if i%2 == 0 {
			x := &stringSink{k}
			p, s = &x.sink, x
		}
		err := serialise(doc, n, c.Fn, s)
		got := p.buf.Bytes()
		if p.fails == 0 && err != nil {
			out.Err = errorf("%s: fails, the writer does not: %v", what, err)
			return out
		}
		if err == nil && !bytes.Equal(got, want) {
			out.Err = errorf("%s: the destination stopped (%s) after %d of %d bytes, it got %d bytes, no error is returned: %s", what, c.How, i, len(want), len(got), diffLines(string(want), string(got)))
			return out
		}
		if err == nil && p.fails > 0 && c.How != "short" {
			out.Err = errorf("%s: the destination failed (%s) after %d of %d bytes, no error is returned", what, c.How, i, len(want))
			return out
		}
		if c.How != "once" && c.How != "full" && c.How != "short" && !bytes.HasPrefix(want, got) {
			out.Err = errorf("%s: the destination failed (%s) after %d of %d bytes, what it got is not the start of the output: %s", what, c.How, i, len(want), diffLines(string(want), string(got)))
			return out
		}
	}
	// the document has not changed
	again := &sink{limit: -1}
	if err := serialise(doc, n, c.Fn, again); err != nil || !bytes.Equal(again.buf.Bytes(), want) {
		out.Err = errorf("%s: after the failures the output is another one (%v): %s", what, err, diffLines(string(want), again.buf.String()))
	}
	return out
}

func init() {
	prop("P19", "the output is longer than 30 bytes")
	gen := func(t *rapid.T) outCase {
		c := outCase{Fn: uni(t, 4), Node: uni(t, 100), How: pick(t, sinkKinds)}
		for i := ri(t, 3, 25); i > 0; i-- {
			c.At = append(c.At, uni(t, 5000))
		}
		return c
	}
	reg("P19", "parsed", 12000, 600000, func(t *rapid.T) outCase {
		c := gen(t)
		switch ri(t, 0, 9) {
		case 0, 1:
			c.Src = genEncCase(t).Bytes
		case 2:
			c.Src = genEntCase(t).Src
		case 3, 4:
			c.Src = spell(t, &Doc{DTD: genCrowdedDTD(t), Root: &N{K: KElem, Name: "r"}})
		case 5:
			c.Src = []byte("<r a='" + genRefText(t) + "'>" + genRefText(t) + "</r>")
		default:
			c.Src = spell(t, genDoc(t, GenOpt{MaxElems: 8, DTD: rb(t)}))
		}
		return c
	}, checkSink)
	reg("P19", "built", 6000, 300000, func(t *rapid.T) outCase {
		c := gen(t)
		c.Doc, c.Tape = buildable(genDoc(t, GenOpt{})), genTape(t, 40)
		return c
	}, checkSink)
	// far into long outputs
	reg("P19", "large", 300, 12000, func(t *rapid.T) outCase {
		c := outCase{Fn: uni(t, 4), How: pick(t, sinkKinds)}
		if chance(t, 1, 3) {
			c.Node = uni(t, 100)
		}
		for i := ri(t, 3, 8); i > 0; i-- {
			c.At = append(c.At, uni(t, 400000))
		}
		all := append(append([]string(nil), largeContent...), largeDTD...)
		l := genLarge(t, all, 60000)
		if rb(t) {
			// much of something small
			l = largeCase{Parts: []largePart{{pick(t, []string{"kids", "mixed", "attrs", "lines", "charrefs", "refs", "elements", "attlists", "after"}), ri(t, 30000, 250000), ri(t, 0, 9), true}}}
		}
		c.Src = l.build().Src
		return c
	}, checkSink).maxCPU = 45 * time.Second
}

// genRefText draws text that has to be escaped
func genRefText(t *rapid.T) string {
	var b bytes.Buffer
	for i := ri(t, 0, 12); i > 0; i-- {
		b.WriteString(pick(t, []string{"&#10;", "&#13;", "&lt;", "&gt;", "&amp;", "&#34;", "&#39;", "&#x85;", "&#9;", "é", "x", "日", " "}))
	}
	return b.String()
}
