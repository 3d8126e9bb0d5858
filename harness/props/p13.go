package props

import (
	"bytes"
	"fmt"
	"strings"
	"unicode/utf16"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P13: the error for an ill-formed document points at the fault.

// place is a position in a text
type place struct {
	Line, Col int
	Off       int // in characters
}

// errPlace checks that err has a position inside of text, and returns it
func errPlace(err error, text []rune) (place, error) {
	e, ok := err.(helium.ErrParseError)
	if !ok {
		return place{}, errorf("the error has no position: %T %v", err, err)
	}
	p := place{Line: e.LineNumber, Col: e.Column}
	lines := strings.Split(string(text), "\n")
	if p.Line < 1 || p.Line > len(lines) {
		return p, errorf("line %d of %d: %v", p.Line, len(lines), err)
	}
	for _, l := range lines[:p.Line-1] {
		p.Off += len([]rune(l)) + 1
	}
	l := []rune(lines[p.Line-1])
	if p.Col < 1 || p.Col > len(l)+1 {
		return p, errorf("column %d of a line of %d characters: %v", p.Col, len(l), err)
	}
	p.Off += p.Col - 1
	if got, want := strings.TrimPrefix(e.Line, "\n"), string(l[:p.Col-1]); got != want {
		return p, errorf("the error at line %d, column %d shows the line %q, it is %q up to there", p.Line, p.Col, got, want)
	}
	msg := err.Error()
	if s := fmt.Sprintf("line %d", p.Line); !strings.Contains(msg, s) {
		return p, errorf("%q is not in the message %q", s, msg)
	}
	if s := fmt.Sprintf("column %d", p.Col); !strings.Contains(msg, s) {
		return p, errorf("%q is not in the message %q", s, msg)
	}
	return p, nil
}

func plainText(src []byte) []rune {
	s := strings.TrimPrefix(string(src), "\ufeff")
	s = strings.Replace(s, "\r\n", "\n", -1)
	return []rune(strings.Replace(s, "\r", "\n", -1))
}

// faultBounds gives the part of the text the error may point to
func faultBounds(r RefResult) (from, to int) {
	from, to = r.From, r.At
	if !r.InEnt && to < len(r.Text) && r.Text[to] != '\n' {
		to++ // but never onto the line after the fault
	}
	tok := string(r.Text[r.From:min(len(r.Text), r.From+10)])
	if strings.HasPrefix(tok, "<!ENTITY") && !r.InEnt {
		// the value is looked into when it has been read
		if q := openQuote(r.Text[r.From:r.At]); q != 0 {
			for to = r.At; to < len(r.Text) && r.Text[to] != q; {
				to++
			}
			to++
		}
	}
	return from, min(to, len(r.Text))
}

// openQuote gives the quote that has not been closed
func openQuote(s []rune) (q rune) {
	for _, r := range s {
		switch {
		case q == 0 && (r == '"' || r == '\''):
			q = r
		case r == q:
			q = 0
		}
	}
	return q
}

// checkFault checks that parsing src fails between from and to
func checkFault(src []byte, text []rune, from, to int) (place, error) {
	var first place
	for i := 0; i < 3; i++ {
		var err error
		if i == 0 {
			_, err = helium.Parse(src)
		} else {
			_, err = parseRec(src, newRecorder(i == 1))
		}
		if err == nil {
			return first, errorf("accepted")
		}
		p, perr := errPlace(err, text)
		if perr != nil {
			return p, perr
		}
		if p.Off < from || p.Off > to {
			return p, errorf("the error is reported at line %d, column %d, the fault is in %q (%v)", p.Line, p.Col, cut(string(text[from:to]), 300), err)
		}
		if i == 0 {
			first = p
		} else if p != first {
			return p, errorf("the error is reported at line %d, column %d, with a handler at line %d, column %d", first.Line, first.Col, p.Line, p.Col)
		}
	}
	return first, nil
}

// declEnd gives the length of the XML declaration
func declEnd(text []rune) int {
	if s := string(text); strings.HasPrefix(s, "<?xml") && len(s) > 5 && isBlank(rune(s[5])) {
		if i := strings.Index(s, "?>"); i >= 0 {
			return len([]rune(s[:i+2]))
		}
		return len(text)
	}
	return 0
}

type faultCase struct {
	Src   []byte
	Front string // what the fault is moved down by
	How   string // "", "crlf", "cr", "utf16"
}

func (c *faultCase) input() []byte                  { return c.Src }
func (c *faultCase) withInput(b []byte) interface{} { return &faultCase{b, c.Front, c.How} }

var fronts = []string{"\n", "\n\n\n", "\n", " ", "<!-- x\ny -->", "<?p\n?>\n", "\t\n", "<!--é日𐀀-->", "<?p x\n\n\ty?>"}

func genFront(t *rapid.T) string {
	var b strings.Builder
	for i := ri(t, 1, 4); i > 0; i-- {
		b.WriteString(pick(t, fronts))
	}
	if chance(t, 1, 6) {
		most := 400
		if chance(t, 1, 100) {
			most = 90000
		}
		b.WriteString(strings.Repeat("\n", ri(t, 1, most)))
	}
	return b.String()
}

// utf16LE writes text in UTF-16
func utf16LE(text string) []byte {
	b := []byte{0xFF, 0xFE}
	for _, u := range utf16.Encode([]rune(text)) {
		b = append(b, byte(u), byte(u>>8))
	}
	return b
}

func checkMoved(c faultCase) Out {
	r := refParse(c.Src)
	out := Out{Labels: []string{r.V.String()}, Sample: string(c.Src)}
	if r.V != vBad || r.Text == nil {
		return out
	}
	if _, err := helium.Parse(c.Src); err == nil {
		out.Labels = append(out.Labels, "accepted") // a case for P02
		return out
	}
	out.NonTrivial = r.At > 10
	out.Labels = append(out.Labels, "how: "+c.How)
	if r.InEnt {
		out.Labels = append(out.Labels, "in an entity")
	}
	from, to := faultBounds(r)
	p, err := checkFault(c.Src, r.Text, from, to)
	if err != nil {
		out.Err = err
		return out
	}
	// moved down
	if at := declEnd(r.Text); r.From >= at {
		out.Labels = append(out.Labels, "moved")
		text := string(r.Text[:at]) + c.Front + string(r.Text[at:])
		moved := []rune(text)
		n := len([]rune(c.Front))
		src := []byte(text)
		switch c.How {
		case "crlf":
			src = []byte(strings.Replace(text, "\n", "\r\n", -1))
		case "cr":
			src = []byte(strings.Replace(text, "\n", "\r", -1))
		case "utf16":
			if at == 0 {
				src = utf16LE(text)
			}
		case "":
		default:
			if at > 0 {
				break
			}
			decl := "<?xml version='1.0' encoding='" + c.How + "'?>"
			for _, x := range encTable {
				if b, ok := x.encode(decl + text); ok && x.names[0] == c.How {
					out.Labels = append(out.Labels, "in another encoding")
					src, moved = b, []rune(decl+text)
					n += len(decl)
				}
			}
		}
		q, err := checkFault(src, moved, from+n, to+n)
		if err != nil {
			out.Err = errorf("with %q in front (%s): %v", c.Front, c.How, err)
			return out
		}
		if q.Off != p.Off+n {
			out.Err = errorf("the error was at line %d, column %d, with %d characters in front, %q in front (%s) it is at line %d, column %d", p.Line, p.Col, n, c.Front, c.How, q.Line, q.Col)
		} else if d := strings.Count(c.Front, "\n"); strings.HasSuffix(c.Front, "\n") && (q.Line != p.Line+d || q.Col != p.Col) && !(at > 0 && p.Line == 1+strings.Count(string(r.Text[:at]), "\n")) {
			out.Err = errorf("the error was at line %d, column %d, %d lines further down it is at line %d, column %d", p.Line, p.Col, d, q.Line, q.Col)
		}
	}
	return out
}

func genMoved(src func(t *rapid.T) []byte) func(t *rapid.T) faultCase {
	return func(t *rapid.T) faultCase {
		b := src(t)
		if chance(t, 1, 200) && !bytes.HasPrefix(b, []byte("<?xml")) {
			// a long line
			b = append([]byte("<!--"+strings.Repeat("lorem ", ri(t, 1, 15000))+"-->"), b...)
		}
		return faultCase{b, genFront(t), pick(t, []string{"", "", "crlf", "crlf", "cr", "utf16", "iso-8859-1", "windows-1251", "shift_jis", "euc-kr"})}
	}
}

// badByte is a well-formed document with bytes in it that are not UTF-8
type badByte struct {
	Src []byte
	At  int
	Bad []byte
}

func genBadByte(t *rapid.T) badByte {
	src := spell(t, genDoc(t, GenOpt{MaxElems: 8}))
	at := uni(t, len(src)+1)
	for at > 0 && at < len(src) && !utf8.RuneStart(src[at]) {
		at--
	}
	return badByte{src, at, []byte(pick(t, []string{"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\x80"}))}
}

func checkBadByte(c badByte) Out {
	src := append(append(append([]byte(nil), c.Src[:c.At]...), c.Bad...), c.Src[c.At:]...)
	out := Out{Sample: string(src)}
	front := c.Src[:c.At]
	r := refParse(front)
	if r.Text == nil || c.At < len(c.Src) && refParse(c.Src).V != vOK {
		out.Labels = []string{"unsure"}
		return out
	}
	text := plainText(front)
	from, to := r.From, len(text)
	if r.V != vBad || from < declEnd(text) {
		from = 0
	}
	out.NonTrivial = from > 10
	_, out.Err = checkFault(src, text, from, to)
	return out
}

func init() {
	prop("P13", "the document is certainly ill-formed and the fault is not in its first 10 characters")
	reg("P13", "mutated", 30000, 1500000, genMoved(func(t *rapid.T) []byte {
		if rb(t) {
			return genSource(t)
		}
		return mutate(t, spell(t, genDoc(t, GenOpt{MaxElems: 20})), 1)
	}), checkMoved)
	reg("P13", "truncated", 10000, 500000, genMoved(func(t *rapid.T) []byte {
		src := spell(t, genDoc(t, GenOpt{MaxElems: 8}))
		return src[:uni(t, len(src))]
	}), checkMoved)
	reg("P13", "broken", 20000, 1000000, genMoved(func(t *rapid.T) []byte { return genBroken(t).Src }), checkMoved)
	reg("P13", "entities", 15000, 800000, genMoved(func(t *rapid.T) []byte {
		src := genBadEnt(t).Src
		if rb(t) {
			src = bytes.Replace(src, []byte("<!E"), []byte("\n<!E"), ri(t, -1, 3))
		}
		if rb(t) {
			src = bytes.Replace(src, []byte("]>"), []byte("\n\n]\n>\n "), 1)
		}
		return src
	}), checkMoved)
	reg("P13", "references", 10000, 500000, genMoved(func(t *rapid.T) []byte {
		m := genMalRef(t)
		return placeRef(crPlaces[m.Place], []string{m.Ref})
	}), checkMoved)
	reg("P13", "various", 10000, 500000, genMoved(func(t *rapid.T) []byte { return mutate(t, genVarious(t), 1) }), checkMoved)
	reg("P13", "bytes", 10000, 500000, genBadByte, checkBadByte)
}
