package props

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"golang.org/x/text/encoding/unicode"
	"pgregory.net/rapid"
)

// P20: the XML declaration is understood and preserved.

// the productions of the recommendation, for normalised line ends
var (
	reXMLDecl = regexp.MustCompile(`^<\?xml[ \t\r\n]+version[ \t\r\n]*=[ \t\r\n]*('1\.[0-9]+'|"1\.[0-9]+")` +
		`([ \t\r\n]+encoding[ \t\r\n]*=[ \t\r\n]*('[A-Za-z][A-Za-z0-9._-]*'|"[A-Za-z][A-Za-z0-9._-]*"))?` +
		`([ \t\r\n]+standalone[ \t\r\n]*=[ \t\r\n]*('(?:yes|no)'|"(?:yes|no)"))?[ \t\r\n]*\?>`)
	reDeclStart = regexp.MustCompile(`^<\?xml(?:[^-A-Za-z0-9._:\x{80}-\x{10ffff}]|$)`)
)

// readXMLDecl reads the declaration a text starts with. ok: there is one and
// it is correct.
func readXMLDecl(s string) (d XMLDecl, rest string, ok bool) {
	m := reXMLDecl.FindStringSubmatch(s)
	if m == nil {
		return d, s, false
	}
	un := func(q string) string {
		if q == "" {
			return ""
		}
		return q[1 : len(q)-1]
	}
	return XMLDecl{un(m[1]), un(m[3]), un(m[5])}, s[len(m[0]):], true
}

// declOf is what a document says about its declaration
func saysDecl(doc *helium.Document) XMLDecl {
	d := XMLDecl{Version: doc.Version(), Encoding: doc.Encoding()}
	switch doc.Standalone() {
	case helium.StandaloneExplicitYes:
		d.Standalone = "yes"
	case helium.StandaloneExplicitNo:
		d.Standalone = "no"
	}
	return d
}

// sameDecl compares what a document says with the declaration it was read
// from (nil: none). Encoding() answers utf8 where none is declared.
func sameDecl(got XMLDecl, want *XMLDecl) error {
	w := XMLDecl{}
	if want != nil {
		w = *want
	}
	if w.Encoding == "" {
		w.Encoding = "utf8"
	}
	if got != w {
		return errorf("the document says version %q, encoding %q, standalone %q\nwant version %q, encoding %q, standalone %q", got.Version, got.Encoding, got.Standalone, w.Version, w.Encoding, w.Standalone)
	}
	return nil
}

// writtenDecl checks the declaration of serialised output
func writtenDecl(b []byte, want *XMLDecl) error {
	w := XMLDecl{Version: "1.0"}
	if want != nil {
		w = *want
	}
	text := b
	if w.Encoding != "" {
		x := findEnc(w.Encoding)
		if x == nil {
			return errorf("no encoding %q", w.Encoding)
		}
		if x.u16 || x.e != findEnc("utf-8").e {
			var err error
			if text, err = x.e.NewDecoder().Bytes(b); err != nil {
				return errorf("the output is not in %s: %v", w.Encoding, err)
			}
		}
	}
	s := strings.TrimPrefix(string(text), "\ufeff")
	d, _, ok := readXMLDecl(s)
	if !ok {
		return errorf("the output starts with no XML declaration: %s", show([]byte(s)))
	}
	if d != w {
		return errorf("the output declares version %q, encoding %q, standalone %q\nwant version %q, encoding %q, standalone %q\n%s", d.Version, d.Encoding, d.Standalone, w.Version, w.Encoding, w.Standalone, show([]byte(s)))
	}
	return nil
}

func checkDeclared(src []byte, want *XMLDecl) error {
	doc, err := helium.Parse(src)
	if err != nil {
		return errorf("rejected: %v\n%s", err, show(src))
	}
	if err := sameDecl(saysDecl(doc), want); err != nil {
		return errorf("%v\n%s", err, show(src))
	}
	s, err := doc.XMLString()
	if err != nil {
		return errorf("serialising: %v\n%s", err, show(src))
	}
	if err := writtenDecl([]byte(s), want); err != nil {
		return errorf("%v\nread from %s", err, show(src))
	}
	var b bytes.Buffer
	if err := (&helium.Dumper{}).DumpDoc(&b, doc); err != nil || b.String() != s {
		return errorf("DumpDoc writes something else (%v): %s", err, diffLines(s, b.String()))
	}
	// serialising has not changed it, and reading it back gives the same
	if err := sameDecl(saysDecl(doc), want); err != nil {
		return errorf("after serialising: %v", err)
	}
	again, err := helium.Parse([]byte(s))
	if err != nil {
		return errorf("what was written is rejected: %v\n%s", err, show([]byte(s)))
	}
	w := XMLDecl{Version: "1.0"}
	if want != nil {
		w = *want
	}
	if err := sameDecl(saysDecl(again), &w); err != nil {
		return errorf("read back: %v\n%s", err, show([]byte(s)))
	}
	return nil
}

// ---- legal declarations ----

type declCase struct {
	Decl  *XMLDecl
	Order bool // byte order, for UTF-16
	BOM   bool
	UTF8  string
	Fresh bool // parse something else first
}

// genWS draws white space of any kind
func genWS(t *rapid.T, min int) string {
	n := ri(t, min, min+2)
	if chance(t, 1, 30) {
		n = ri(t, 1, 400)
	}
	var b strings.Builder
	for ; n > 0; n-- {
		b.WriteString(pick(t, []string{" ", " ", "\t", "\n", "\r\n", "\r"}))
	}
	return b.String()
}

func genVersion(t *rapid.T) string {
	switch {
	case chance(t, 1, 3):
		v := "1."
		n := ri(t, 1, 4)
		if chance(t, 1, 20) {
			n = ri(t, 5, 300)
		}
		for ; n > 0; n-- {
			v += string(rune('0' + uni(t, 10)))
		}
		return v
	case chance(t, 1, 4):
		return "1.1"
	}
	return "1.0"
}

var declBodies = []string{
	"<r/>", "<r version='2.0' encoding='none' standalone='maybe'/>", "<r>?></r>", "\n<r/>\n", "<?x version='3.0'?><r/>", "<?xml-stylesheet version='2.0' encoding='x' standalone='yes'?><r/>",
	"<!-- <?xml version='1.9'?> --><r/>", "<!DOCTYPE r [<!ENTITY e 'x'>]><r>&e;</r>", "<!DOCTYPE r><r/>", "<r>version='1.4' encoding='big5'?></r>", "<r/><!--x--><?xmlx encoding='x'?>",
	"<r><![CDATA[<?xml version='1.0' standalone='yes'?>]]></r>", "\r\n\r\n<r></r>", "<r standalone='yes'/>",
}

func spellDecl(t *rapid.T, d *XMLDecl) string {
	eq := func() string { return genWS(t, 0) + "=" + genWS(t, 0) }
	if chance(t, 2, 3) {
		eq = func() string { return "=" }
	}
	sp := func(min int) string {
		if chance(t, 1, 2) {
			return strings.Repeat(" ", min)
		}
		return genWS(t, min)
	}
	q := func(v string) string {
		x := pick(t, []string{"'", "\""})
		return x + v + x
	}
	s := "<?xml" + sp(1) + "version" + eq() + q(d.Version)
	if d.Encoding != "" {
		s += sp(1) + "encoding" + eq() + q(d.Encoding)
	}
	if d.Standalone != "" {
		s += sp(1) + "standalone" + eq() + q(d.Standalone)
	}
	return s + sp(0) + "?>"
}

func genDeclCase(t *rapid.T) declCase {
	c := declCase{Order: rb(t), Fresh: chance(t, 1, 4)}
	body := pick(t, declBodies)
	if chance(t, 1, 10) {
		c.BOM = rb(t)
		c.UTF8 = body
		if strings.TrimLeft(body, "\r\n") != body {
			c.UTF8 = strings.TrimLeft(body, "\r\n")
		}
		return c
	}
	c.Decl = &XMLDecl{Version: genVersion(t), Standalone: pick(t, []string{"", "yes", "no"})}
	switch ri(t, 0, 5) {
	case 0:
	case 1, 2:
		c.Decl.Encoding = mixCase(t, pick(t, []string{"utf-8", "UTF-8"}))
		c.BOM = rb(t)
	default:
		x := encTable[uni(t, len(encTable))]
		c.Decl.Encoding = mixCase(t, pick(t, x.names))
		c.BOM = x.u16 && (rb(t) || x.names[0] == "utf-16")
	}
	c.UTF8 = spellDecl(t, c.Decl) + body
	return c
}

// bytes puts the document into its encoding
func (c declCase) bytes() ([]byte, error) {
	bom := ""
	if c.BOM {
		bom = "\ufeff"
	}
	if c.Decl == nil || c.Decl.Encoding == "" {
		return []byte(bom + c.UTF8), nil
	}
	x := findEnc(c.Decl.Encoding)
	if x == nil {
		return nil, errorf("no encoding")
	}
	if !x.u16 {
		b, ok := x.encode(bom + c.UTF8)
		if !ok {
			return nil, errorf("not encodable")
		}
		return b, nil
	}
	order := unicode.BigEndian
	if x.names[0] == "utf-16le" || x.names[0] == "utf-16" && c.Order {
		order = unicode.LittleEndian
	}
	return unicode.UTF16(order, unicode.IgnoreBOM).NewEncoder().Bytes([]byte(bom + c.UTF8))
}

// ---- malformed declarations ----

type badDecl struct {
	Src  []byte
	Kind string
}

func (c *badDecl) input() []byte                  { return c.Src }
func (c *badDecl) withInput(b []byte) interface{} { return &badDecl{b, c.Kind} }

var (
	badVersions    = []string{"", "2.0", "1", "1.", ".1", "1.0a", "1,0", "+1.0", "01.0", "1.0 ", " 1.0", "1.-0", "1.0.0", "1.0.", "0.9", "10.0", "11.0", "1 .0", "1. 0", "one", "1.０", "1.\u0663", "v1.0", "1.0\t", "\n1.0", "1.x", "1.0?>", "&#49;.0", "1.0&#32;", "x", "1:0", "1.0-", "1.0_1", "1..0", "1/0", "\u00a01.0"}
	badEncodings   = []string{"", "8859", "utf 8", "-utf-8", " utf-8", "utf-8 ", "utf/8", "utf-8:x", "é", "_x", ".utf-8", "utf+8", "utf\u20118", "utf-8\n", "\tutf-8", "&#117;tf-8", "utf-8;", "utf-8,x", "UTF‐8", "1utf", "(utf-8)", "utf-8?", "u\u00a0"}
	badStandalones = []string{"", "YES", "Yes", "NO", "true", "1", "yes ", " yes", "no ", "yesno", "noyes", "y", "n", "ye", "nope", "maybe", "yes\n", "\tno", "&#121;es", "no?", "yes-", "yesyes", "nono", "falsch", "n\u00f6"}
	badNames       = map[string][]string{
		"version":    {"Version", "VERSION", "versio", "versions", "xversion", "version1", "ver sion", ":version", "v", "\u1d20ersion"},
		"encoding":   {"Encoding", "ENCODING", "encodin", "encodings", "charset", "enc oding", "xml:encoding", "x"},
		"standalone": {"Standalone", "STANDALONE", "standalon", "standalones", "stand alone", "standalone1", "alone", "y"},
	}
	badBlanks = []string{"", "\u00a0", "\u0085", "\u3000", "\u2028", "\v", "\f", ",", ";", "/", "&#32;", "<!-- -->", "\u200b"}
)

type declPart struct{ sp, name, eq, val string }

func genBadDecl(t *rapid.T) badDecl {
	parts := []declPart{{" ", "version", "=", "1.0"}}
	if rb(t) {
		parts = append(parts, declPart{" ", "encoding", "=", "utf-8"})
	}
	if rb(t) {
		parts = append(parts, declPart{" ", "standalone", "=", pick(t, []string{"yes", "no"})})
	}
	start, end, before := "<?xml", "?>", ""
	open := make([]string, 5)
	shut := make([]string, 5)
	for i := range open {
		open[i] = pick(t, []string{"'", "\""})
		shut[i] = open[i]
	}
	if chance(t, 1, 3) {
		for i := range parts {
			parts[i].sp = genWS(t, 1)
			parts[i].eq = genWS(t, 0) + "=" + genWS(t, 0)
		}
		end = genWS(t, 0) + "?>"
	}
	i := uni(t, len(parts))
	part := func(name string) *declPart {
		for k := range parts {
			if parts[k].name == name {
				i = k
				return &parts[k]
			}
		}
		val := map[string]string{"encoding": "utf-8", "standalone": "yes"}[name]
		p := declPart{" ", name, "=", val}
		if name == "encoding" { // goes between
			parts = append(parts[:1], append([]declPart{p}, parts[1:]...)...)
			i = 1
		} else {
			parts = append(parts, p)
			i = len(parts) - 1
		}
		return &parts[i]
	}
	kind := pick(t, []string{"version", "encoding", "standalone", "name", "missing", "repeated", "order", "blank", "equal", "quote", "end", "start", "extra", "before", "case", "value", "edit", "edit"})
	switch kind {
	case "version":
		part("version").val = pick(t, badVersions)
	case "encoding":
		part("encoding").val = pick(t, badEncodings)
	case "standalone":
		part("standalone").val = pick(t, badStandalones)
	case "name":
		parts[i].name = pick(t, badNames[parts[i].name])
	case "missing": // without a version
		switch ri(t, 0, 2) {
		case 0:
			parts = parts[1:]
		case 1: // only a name, or only a value
			parts[i].eq, parts[i].val = "", ""
			open[i], shut[i] = "", ""
		default:
			parts[i].name = ""
		}
	case "repeated":
		x := parts[i]
		if rb(t) && x.name == "standalone" {
			x.val = "no"
		}
		at := uni(t, len(parts)+1)
		parts = append(parts[:at:at], append([]declPart{x}, parts[at:]...)...)
	case "order":
		part(pick(t, []string{"encoding", "standalone"}))
		if rb(t) {
			part("encoding")
			part("standalone")
		}
		j := uni(t, len(parts))
		k := (j + 1 + uni(t, len(parts)-1)) % len(parts)
		parts[j], parts[k] = parts[k], parts[j]
	case "blank":
		parts[i].sp = pick(t, badBlanks)
		if rb(t) && parts[i].sp != "" {
			parts[i].sp = " " + parts[i].sp
		}
	case "equal":
		parts[i].eq = pick(t, []string{"", " ", "==", ":", "= =", ":=", "\u00a0=", "=\u3000", "-", "＝"})
	case "quote":
		switch ri(t, 0, 3) {
		case 0:
			open[i], shut[i] = "", ""
		case 1:
			if open[i] == "'" {
				shut[i] = "\""
			} else {
				shut[i] = "'"
			}
		case 2:
			shut[i] = pick(t, []string{"", "''", "\"\"", "'\"", "`", "\u2019"})
		default:
			open[i] = pick(t, []string{"", "''", "\"\"", "`", "\u2018", "\u201c"})
		}
	case "end":
		end = pick(t, []string{">", "?", " ? >", "/>", "", "x?>", " x?>", "??>", " ?", ";?>", "<?>", "->", " />", "?]>", "\x00?>", "\u00a0?>", "=?>", "''?>"})
	case "start":
		start = pick(t, []string{"<?XML", "<?Xml", "<?xML", "<? xml", "< ?xml", "<xml", "<?\nxml", "<!xml", "<?xml:", "<?xml?"})
	case "extra":
		x := declPart{" ", pick(t, []string{"foo", "xmlns", "version", "encoding", "xml:lang", "standalone", "id", "Encoding"}), "=", pick(t, []string{"1.0", "utf-8", "yes", "x", ""})}
		parts = append(parts, x)
		if rb(t) {
			at := uni(t, len(parts))
			copy(parts[at+1:], parts[at:])
			parts[at] = x
		}
	case "before":
		before = pick(t, []string{" ", "\n", "\t", "\r\n", "<!-- x -->", "<?x?>", "\ufeff\ufeff", "<?xml version='1.0'?>", "x", "\x00", "<!DOCTYPE r>", "\u00a0", "\ufeff "})
	case "case":
		end = strings.ToUpper(end)
		parts[i].val = strings.ToUpper(parts[i].val)
		if parts[i].name != "standalone" {
			parts[i].name = strings.ToUpper(parts[i].name)
		}
	case "value":
		p := &parts[i]
		at := uni(t, len(p.val)+1)
		p.val = p.val[:at] + pick(t, []string{" ", "'", "\"", "<", ">", "&", "&amp;", "\n", "=", "?", "é", "\x00", "~", "\\", "\ufeff", "#", "?>", "%"}) + p.val[at:]
	}
	if kind == "edit" {
		// a small change to one of the words
		if rb(t) {
			part("standalone")
		}
		w := &parts[i].val
		if chance(t, 1, 4) {
			w = &parts[i].name
		} else if chance(t, 1, 20) {
			w = &start
		}
		*w = editWord(t, *w)
	}
	s := before + start
	for k, p := range parts {
		o, c := "'", "'"
		if k < len(open) {
			o, c = open[k], shut[k]
		}
		s += p.sp + p.name + p.eq + o + p.val + c
	}
	s += end
	return badDecl{[]byte(s + pick(t, declBodies)), kind}
}

// checkBadDecl decides with the productions whether the document has a
// malformed declaration
func checkBadDecl(c badDecl) Out {
	out := Out{Sample: string(c.Src)}
	s := strings.TrimPrefix(string(c.Src), "\ufeff")
	if !reDeclStart.MatchString(s) {
		// perhaps it is not at the start, or not a declaration at all
		r := refParse(c.Src)
		out.Labels = []string{c.Kind + ", no declaration: " + r.V.String()}
		switch r.V {
		case vBad:
			out.NonTrivial = true
			out.Err = mustReject(c.Src, c.Kind+": "+r.Msg)
		case vOK:
			out.Err = checkDeclared(c.Src, nil)
		}
		return out
	}
	d, rest, ok := readXMLDecl(s)
	if !ok {
		out.Labels = []string{c.Kind + ": malformed"}
		out.NonTrivial = true
		out.Err = mustReject(c.Src, "malformed XML declaration ("+c.Kind+")")
		return out
	}
	for _, b := range declBodies {
		if b == rest && (d.Encoding == "" || strings.EqualFold(d.Encoding, "utf-8")) {
			out.Labels = []string{c.Kind + ": well-formed"}
			out.Err = checkDeclared(c.Src, &d)
			return out
		}
	}
	r := refParse([]byte("<?xml version='1.0'?>" + rest))
	out.Labels = []string{c.Kind + ": the rest is " + r.V.String()}
	if r.V == vBad && (d.Encoding == "" || strings.EqualFold(d.Encoding, "utf-8")) {
		out.NonTrivial = true
		out.Err = mustReject(c.Src, c.Kind+": "+r.Msg)
	}
	return out
}

// ---- documents that are made ----

type madeDecl struct {
	Decl XMLDecl
	How  int
}

func init() {
	prop("P20", "at least two of version, encoding and standalone are not the usual ones, or there is white space beyond single blanks (legal); every malformed declaration (malformed)")

	reg("P20", "legal", 40000, 2500000, genDeclCase, func(c declCase) Out {
		out := Out{Sample: c.UTF8, Labels: []string{"none"}}
		src, err := c.bytes()
		if err != nil {
			out.Labels = []string{"not encodable"}
			return out
		}
		if c.Decl != nil {
			// the generator and the productions agree
			if d, _, ok := readXMLDecl(c.UTF8); !ok || d != *c.Decl {
				panic("generator and productions differ on " + q(c.UTF8))
			}
			n := 0
			l := "version"
			if c.Decl.Version != "1.0" {
				n++
			}
			if c.Decl.Encoding != "" {
				n++
				l += "+encoding"
			}
			if c.Decl.Standalone != "" {
				n++
				l += "+standalone"
			}
			decl := c.UTF8[:strings.Index(c.UTF8, "?>")]
			out.NonTrivial = n >= 2 || strings.ContainsAny(decl, "\r\n\t") || strings.Contains(decl, "  ")
			out.Labels = []string{l}
		}
		if c.BOM {
			out.Labels = append(out.Labels, "BOM")
		}
		if c.Fresh {
			helium.Parse([]byte("<?xml version='1.3' encoding='big5' standalone='no'?><x/>"))
		}
		out.Err = checkDeclared(src, c.Decl)
		if out.Err == nil && c.Fresh {
			// the same parser may have seen another declaration
			p := helium.NewParser()
			p.Parse([]byte("<?xml version='1.4' encoding='iso-8859-2' standalone='yes'?><x/>"))
			doc, err := p.Parse(src)
			if err != nil {
				return failf("rejected by a parser that was used before: %v\n%s", err, show(src))
			}
			if err := sameDecl(saysDecl(doc), c.Decl); err != nil {
				return failf("by a parser that was used before: %v\n%s", err, show(src))
			}
		}
		return out
	})

	reg("P20", "malformed", 60000, 3500000, genBadDecl, checkBadDecl)

	// every truncation, and every single edit of one place
	reg("P20", "edited", 1500, 90000, genDeclCase, func(c declCase) Out {
		out := Out{Sample: c.UTF8, Labels: []string{"utf-8"}}
		if c.Decl == nil || c.Decl.Encoding != "" && !strings.EqualFold(c.Decl.Encoding, "utf-8") || len(c.UTF8) > 300 {
			out.Labels = []string{"skipped"}
			return out
		}
		end := strings.Index(c.UTF8, "?>") + 2
		frags := []string{"", "x", " ", "'", "\"", "=", "?", ">", "1", ".", "\u00a0", "\x00", "<", "&", "-", "\t"}
		for i := 0; i < end; i++ {
			for k, f := range frags {
				src := c.UTF8[:i] + f + c.UTF8[i:]
				if (i+k)%2 == 0 {
					src = c.UTF8[:i] + f + c.UTF8[i+1:]
				}
				d, rest, ok := readXMLDecl(src)
				var err error
				switch {
				case ok && rest == c.UTF8[end:]:
					if d.Encoding == "" || strings.EqualFold(d.Encoding, "utf-8") {
						err = checkDeclared([]byte(src), &d)
					}
				case !ok && reDeclStart.MatchString(src):
					out.NonTrivial = true
					err = mustReject([]byte(src), fmt.Sprintf("malformed XML declaration (%q at %d)", f, i))
				}
				if err != nil {
					out.Err = err
					return out
				}
			}
			if err := mustReject([]byte(c.UTF8[:i]), "the document ends within the XML declaration"); err != nil {
				out.Err = err
				return out
			}
		}
		return out
	})

	reg("P20", "made", 15000, 800000, func(t *rapid.T) madeDecl {
		c := madeDecl{How: ri(t, 0, 2)}
		c.Decl = XMLDecl{Version: genVersion(t), Standalone: pick(t, []string{"", "none", "yes", "no"})}
		if rb(t) {
			c.Decl.Encoding = mixCase(t, pick(t, encTable[uni(t, len(encTable))].names))
		}
		return c
	}, func(c madeDecl) Out {
		out := Out{Labels: []string{fmt.Sprintf("standalone %q", c.Decl.Standalone)}, Sample: fmt.Sprintf("%+v", c.Decl), NonTrivial: c.Decl.Encoding != "" && c.Decl.Standalone != ""}
		s := standalone(c.Decl.Standalone)
		want := c.Decl
		if c.Decl.Standalone == "none" {
			s, want.Standalone = helium.StandaloneNoXMLDecl, ""
		}
		doc := helium.NewDocument(c.Decl.Version, c.Decl.Encoding, s)
		if c.How == 0 {
			doc, want = helium.CreateDocument(), XMLDecl{Version: "1.0"}
		}
		root, err := doc.CreateElement("r")
		if err == nil {
			err = doc.SetDocumentElement(root)
		}
		if err != nil {
			return failf("%v", err)
		}
		if out.Err = sameDecl(saysDecl(doc), &want); out.Err != nil {
			return out
		}
		x, err := doc.XMLString()
		if err != nil {
			return failf("serialising: %v", err)
		}
		if out.Err = writtenDecl([]byte(x), &want); out.Err != nil {
			return out
		}
		out.Err = checkDeclared([]byte(x), &want)
		return out
	})
}
