package props

import (
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"
)

// A reference parser, written from the recommendation and independent of the
// code under test. It decides whether a document is well-formed and what it
// says; where the recommendation leaves a choice, or the parser under test
// documents a restriction, it answers "unsure".

type verdict int

const (
	vOK verdict = iota
	vBad
	vUnsure
)

func (v verdict) String() string { return [...]string{"well-formed", "ill-formed", "unsure"}[v] }

type refErr struct {
	v   verdict
	msg string
	pos int
}

type refParser struct {
	s        []rune
	i        int
	doc      *Doc
	ents     map[string]*refEnt
	atts     map[string]*Decl // element + " " + attribute
	expanded int              // characters gone through in entities
	elems    int
	stack    []string // entities being expanded
	inEnt    bool
	loose    bool // any name will do where namespaces matter
	feat     map[string]bool
	tok      int // where the construct being parsed starts, in the document
	outer    int // while in an entity: where the reference in the document ends
	scope    []NSDecl
	text     []rune // the document
	evs      []Ev   // the events from the root element on
	evText   strings.Builder
	evKind   string
	defaults map[string][]*Decl
}

// ev notes an event. Adjacent character data is kept in one event, with
// CDATA sections apart from the rest.
func (p *refParser) ev(e Ev) {
	if e.isText() {
		if p.evKind != e.K {
			p.flushEv()
			p.evKind = e.K
		}
		p.evText.WriteString(e.Data)
		return
	}
	p.flushEv()
	p.evs = append(p.evs, e)
}

func (p *refParser) flushEv() {
	if p.evText.Len() > 0 {
		p.evs = append(p.evs, Ev{K: p.evKind, Data: p.evText.String()})
		p.evText.Reset()
	}
}

// startEv notes the start of n, with the defaults of its attributes
func (p *refParser) startEv(n *N) {
	e := Ev{K: "start", Name: n.Name, URI: p.uri(n.Name), NS: n.NS}
	given := map[string]bool{}
	for _, a := range n.Attrs {
		given[a.Name] = true
		e.Attrs = append(e.Attrs, EvAttr{a.Name, a.Value, false})
	}
	if p.defaults == nil {
		p.defaults = map[string][]*Decl{}
		if p.doc.DTD != nil {
			for _, d := range bound(p.doc.DTD.Decls) {
				if d.K == "att" && (d.Def == "" || d.Def == "#FIXED") {
					p.defaults[d.Name] = append(p.defaults[d.Name], d)
				}
			}
		}
	}
	for _, d := range p.defaults[n.Name] {
		if !given[d.Att] {
			e.Attrs = append(e.Attrs, EvAttr{d.Att, d.Default, true})
		}
	}
	p.ev(e)
}

// uri gives the namespace of an element of that name here
func (p *refParser) uri(name string) string {
	pre := prefixOf(name)
	if pre == "xml" {
		return xmlNS
	}
	for i := len(p.scope) - 1; i >= 0; i-- {
		if p.scope[i].Prefix == pre {
			return p.scope[i].URI
		}
	}
	return ""
}

type refEnt struct {
	text    []rune
	checked bool
	special bool
}

func (p *refParser) bad(f string, a ...interface{}) {
	i := p.i
	if len(p.stack) > 0 {
		i = p.outer
	}
	panic(refErr{vBad, fmt.Sprintf(f, a...), i})
}

func (p *refParser) unsure(f string, a ...interface{}) {
	panic(refErr{vUnsure, fmt.Sprintf(f, a...), p.i})
}

// mark notes that a construct starts
func (p *refParser) mark() {
	if len(p.stack) == 0 {
		p.tok = p.i
	}
}

// RefResult is what the reference parser says about an input.
type RefResult struct {
	V    verdict
	Msg  string
	Doc  *Doc
	Feat map[string]bool
	// where the fault is: the construct that contains it, and where it shows,
	// counted in characters of Text
	From, At int
	InEnt    bool
	Text     []rune
	Evs      []Ev // from the root element on
}

var utf8Decl = regexp.MustCompile(`^(?i:utf-?8)$`)

// refParse parses UTF-8 input.
func refParse(b []byte) (res RefResult) {
	p := &refParser{ents: map[string]*refEnt{}, atts: map[string]*Decl{}, feat: map[string]bool{}, doc: &Doc{}}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(refErr)
			if !ok {
				panic(r)
			}
			res = RefResult{V: e.v, Msg: e.msg, Feat: p.feat, From: p.tok, At: e.pos, InEnt: len(p.stack) > 0, Text: p.text}
		}
	}()
	if len(b) >= 2 && (b[0] == 0xFE && b[1] == 0xFF || b[0] == 0xFF && b[1] == 0xFE) {
		p.unsure("UTF-16")
	}
	if len(b) >= 4 && (b[0] == 0 || b[1] == 0 || b[0] == 0x4C) {
		p.unsure("another encoding")
	}
	if len(b) >= 3 && b[0] == 0xEF && b[1] == 0xBB && b[2] == 0xBF {
		b = b[3:]
		p.feat["bom"] = true
	}
	if !utf8.Valid(b) {
		// an encoding declaration may make it legal
		if strings.HasPrefix(string(b), "<?xml") {
			p.unsure("not UTF-8")
		}
		p.bad("not UTF-8")
	}
	str := strings.Replace(string(b), "\r\n", "\n", -1)
	str = strings.Replace(str, "\r", "\n", -1)
	for _, r := range str {
		if r == 0xFFFD {
			p.unsure("U+FFFD")
		}
	}
	p.s = []rune(str)
	p.text = p.s
	p.document()
	p.flushEv()
	return RefResult{V: vOK, Doc: p.doc, Feat: p.feat, Evs: p.evs}
}

func (p *refParser) eof() bool { return p.i >= len(p.s) }

func (p *refParser) peek() rune {
	if p.i < len(p.s) {
		return p.s[p.i]
	}
	return -1
}

func (p *refParser) has(str string) bool {
	i := p.i
	for _, r := range str {
		if i >= len(p.s) || p.s[i] != r {
			return false
		}
		i++
	}
	return true
}

func (p *refParser) skip(str string) bool {
	if !p.has(str) {
		return false
	}
	p.i += len([]rune(str))
	return true
}

func (p *refParser) want(str string) {
	if !p.skip(str) {
		p.bad("%q expected", str)
	}
}

// next consumes a character
func (p *refParser) next() rune {
	if p.eof() {
		p.bad("unexpected end")
	}
	r := p.s[p.i]
	if !isChar(r) {
		p.bad("illegal character U+%04X", r)
	}
	p.i++
	return r
}

func (p *refParser) ws() bool {
	s := p.i
	for !p.eof() && isBlank(p.s[p.i]) {
		p.i++
	}
	return p.i > s
}

func (p *refParser) needWS() {
	if !p.ws() {
		p.bad("white space expected")
	}
}

// nameChar tells whether r may occur in (start) a name
func (p *refParser) nameChar(r rune, start bool) bool {
	if r < 0 {
		return false
	}
	if r < 0x80 {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r == '_', r == ':':
			return true
		case r >= '0' && r <= '9', r == '-', r == '.':
			return !start
		}
		return false
	}
	if isNameStart(r) {
		return true
	}
	if r == 0xFFFD { // recorded finding
		if !p.loose {
			p.unsure("U+FFFD")
		}
		return p.loose
	}
	return !start && inRanges(moreRanges, r)
}

func (p *refParser) name() string {
	st := p.i
	if !p.nameChar(p.peek(), true) {
		p.bad("name expected")
	}
	p.i++
	for p.nameChar(p.peek(), false) {
		p.i++
	}
	if p.i-st > 10000 {
		p.unsure("long name")
	}
	return string(p.s[st:p.i])
}

// qname is a name with at most one colon, in the middle
func (p *refParser) qname() string {
	n := p.name()
	if p.loose {
		return n
	}
	if c := strings.Count(n, ":"); c > 1 || c == 1 && (n[0] == ':' || n[len(n)-1] == ':') {
		p.unsure("colons in %q", n)
	}
	if i := strings.IndexByte(n, ':'); i > 0 {
		// the local part should be a name, too
		r, _ := utf8.DecodeRuneInString(n[i+1:])
		if !p.nameChar(r, true) {
			p.unsure("not a qualified name: %q", n)
		}
	}
	return n
}

func (p *refParser) ncname() string {
	n := p.name()
	if strings.Contains(n, ":") {
		p.unsure("colons in %q", n)
	}
	return n
}

func (p *refParser) nmtoken() string {
	st := p.i
	for p.nameChar(p.peek(), false) {
		p.i++
	}
	if p.i == st {
		p.bad("name token expected")
	}
	return string(p.s[st:p.i])
}

func (p *refParser) quoted(what string) string {
	qc := p.peek()
	if qc != '"' && qc != '\'' {
		p.bad("%s: quote expected", what)
	}
	p.i++
	st := p.i
	for p.next() != qc {
	}
	return string(p.s[st : p.i-1])
}

// badLit is bad for a literal that has just been read and that has no line
// break in any form that is allowed: the fault shows at the first one
func (p *refParser) badLit(lit, f string, a ...interface{}) {
	if i := strings.IndexByte(lit, '\n'); i >= 0 {
		p.i -= len([]rune(lit[i:])) + 1
	}
	p.bad(f, a...)
}

func (p *refParser) eq() {
	p.ws()
	p.want("=")
	p.ws()
}

var (
	reEncName = regexp.MustCompile(`^[A-Za-z][A-Za-z0-9._-]*$`)
	reVersion = regexp.MustCompile(`^1\.[0-9]+$`)
)

func (p *refParser) document() {
	d := p.doc
	if p.has("<?xml") && len(p.s) > 5 && !p.nameChar(p.s[5], false) {
		p.i = 5
		p.needWS()
		x := &XMLDecl{}
		p.want("version")
		p.eq()
		x.Version = p.quoted("version")
		if x.Version != "1.0" {
			if reVersion.MatchString(x.Version) {
				p.unsure("version %q", x.Version)
			}
			p.badLit(x.Version, "version %q", x.Version)
		}
		sp := p.ws()
		if p.has("encoding") {
			if !sp {
				p.bad("white space expected")
			}
			p.skip("encoding")
			p.eq()
			x.Encoding = p.quoted("encoding")
			if !reEncName.MatchString(x.Encoding) {
				p.badLit(x.Encoding, "encoding %q", x.Encoding)
			}
			if !utf8Decl.MatchString(x.Encoding) {
				p.unsure("encoding %q", x.Encoding)
			}
			sp = p.ws()
		}
		if p.has("standalone") {
			if !sp {
				p.bad("white space expected")
			}
			p.skip("standalone")
			p.eq()
			x.Standalone = p.quoted("standalone")
			if x.Standalone != "yes" && x.Standalone != "no" {
				p.badLit(x.Standalone, "standalone %q", x.Standalone)
			}
			p.ws()
		}
		p.want("?>")
		d.Decl = x
	}
	d.Before = p.misc()
	d.Mid = nil
	if p.has("<!DOCTYPE") {
		p.doctype()
		d.Mid = p.misc()
	}
	if p.peek() != '<' {
		p.bad("start tag expected")
	}
	d.Root = p.element(nil)
	d.After = p.misc()
	for _, n := range d.After {
		p.ev(Ev{K: map[string]string{KComm: "comment", KPI: "pi"}[n.K], Name: n.Name, Data: n.Text})
	}
	if !p.eof() {
		p.bad("content after the root element")
	}
	if err := d.Root.resolve(nil); err != nil {
		panic(err) // element has checked it
	}
}

func (p *refParser) misc() (l []*N) {
	for {
		p.ws()
		p.mark()
		switch {
		case p.has("<!--"):
			l = append(l, p.comment())
		case p.has("<?"):
			l = append(l, p.pi())
		default:
			return l
		}
	}
}

func (p *refParser) comment() *N {
	p.want("<!--")
	st := p.i
	for {
		if p.skip("--") {
			if p.peek() != '>' {
				p.bad("'--' in a comment")
			}
			p.i++
			p.feat["comment"] = true
			return &N{K: KComm, Text: string(p.s[st : p.i-3])}
		}
		p.next()
	}
}

func (p *refParser) pi() *N {
	p.want("<?")
	t := p.ncname()
	if strings.EqualFold(t, "xml") {
		p.bad("reserved target")
	}
	n := &N{K: KPI, Name: t}
	p.feat["pi"] = true
	if p.skip("?>") {
		return n
	}
	p.needWS()
	st := p.i
	for !p.has("?>") {
		p.next()
	}
	n.Text = string(p.s[st:p.i])
	p.skip("?>")
	return n
}

// charRef parses after "&#"
func (p *refParser) charRef() rune {
	base := rune(10)
	if p.skip("x") {
		base = 16
	}
	v, digits := rune(0), 0
	for {
		r := p.peek()
		var d rune
		switch {
		case r >= '0' && r <= '9':
			d = r - '0'
		case base == 16 && r >= 'a' && r <= 'f':
			d = r - 'a' + 10
		case base == 16 && r >= 'A' && r <= 'F':
			d = r - 'A' + 10
		case r == ';' && digits > 0:
			p.i++
			if v == 0xFFFD {
				p.unsure("U+FFFD")
			}
			if !isChar(v) {
				p.bad("illegal character reference")
			}
			return v
		default:
			p.bad("bad character reference")
		}
		digits++
		p.i++
		v = v*base + d
		if v > 0x110000 {
			v = 0x110000
		}
	}
}

var predef = map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": "\""}

// attValue parses a quoted attribute value and returns it after
// normalisation as a CDATA attribute.
func (p *refParser) attValue(tokenized, inDecl bool) string {
	qc := p.peek()
	if qc != '"' && qc != '\'' {
		p.bad("attribute value expected")
	}
	p.i++
	var b strings.Builder
	p.attText(&b, qc, tokenized, inDecl)
	p.i++
	return b.String()
}

// attText goes on to the closing quote (or to the end, if qc is 0)
func (p *refParser) attText(b *strings.Builder, qc rune, tokenized, inDecl bool) {
	for {
		if p.eof() {
			if qc == 0 {
				return
			}
			p.bad("unterminated attribute value")
		}
		r := p.next()
		switch {
		case r == qc && qc != 0:
			p.i--
			return
		case r == '<':
			p.bad("'<' in an attribute value")
		case r == '&':
			if p.skip("#") {
				c := p.charRef()
				if tokenized && isBlank(c) && c != ' ' {
					p.unsure("white space reference in a tokenised value")
				}
				b.WriteRune(c)
				p.feat["charref"] = true
				continue
			}
			n := p.name()
			p.want(";")
			if s, ok := predef[n]; ok {
				b.WriteString(s)
				continue
			}
			e := p.entity(n)
			if tokenized {
				p.unsure("entity in a tokenised value")
			}
			p.feat["attent"] = true
			p.inside(n, e, func() { p.attText(b, 0, tokenized, inDecl) })
		case isBlank(r):
			if qc == 0 && r != ' ' {
				p.unsure("white space in an entity in a value")
			}
			b.WriteByte(' ')
		default:
			b.WriteRune(r)
		}
	}
}

func (p *refParser) entity(n string) *refEnt {
	e := p.ents[n]
	if e == nil && p.loose {
		p.unsure("entity %q is not declared here", n)
	}
	if e == nil {
		p.bad("undeclared entity %q", n)
	}
	if e.special {
		p.unsure("special entity")
	}
	return e
}

// inside runs f on the replacement text of e
func (p *refParser) inside(n string, e *refEnt, f func()) {
	for _, s := range p.stack {
		if s == n {
			p.bad("entity %q refers to itself", n)
		}
	}
	if len(p.stack) > 20 {
		p.unsure("deep entities")
	}
	p.expanded += len(e.text) + 1
	if p.expanded > 100000 {
		p.unsure("large expansion")
	}
	s, i, in := p.s, p.i, p.inEnt
	if len(p.stack) == 0 {
		p.outer = p.i
	}
	p.s, p.i, p.inEnt = e.text, 0, true
	p.stack = append(p.stack, n)
	f()
	p.stack = p.stack[:len(p.stack)-1]
	p.s, p.i, p.inEnt = s, i, in
}

func collapse(s string) string {
	var l []string
	for _, x := range strings.Split(s, " ") {
		if x != "" {
			l = append(l, x)
		}
	}
	return strings.Join(l, " ")
}

var reURI = regexp.MustCompile(`^(http://[a-z0-9./#-]*|urn:[a-z0-9:-]+|[a-z0-9./-]*)$`)

func (p *refParser) element(open []string) *N {
	p.mark()
	p.want("<")
	if len(open) > 2000 {
		p.unsure("deep nesting")
	}
	p.elems++
	n := &N{K: KElem, Name: p.qname()}
	if prefixOf(n.Name) == "xmlns" {
		p.unsure("xmlns as element prefix")
	}
	if p.inEnt && strings.Contains(n.Name, ":") {
		p.unsure("prefix in an entity")
	}
	seen := map[string]bool{}
	for {
		sp := p.ws()
		if p.skip("/>") {
			p.prefixes(n)
			outer := p.scope
			p.scope = append(outer[:len(outer):len(outer)], n.NS...)
			p.startEv(n)
			p.ev(Ev{K: "end", Name: n.Name, URI: p.uri(n.Name)})
			p.scope = outer
			return n
		}
		if p.skip(">") {
			break
		}
		if !sp {
			p.bad("white space expected in a tag")
		}
		an := p.qname()
		p.eq()
		tok := false
		if d := p.atts[n.Name+" "+an]; d != nil && d.AttType != "CDATA" {
			tok = true
			p.feat["tokenized"] = true
		}
		v := p.attValue(tok, false)
		if tok {
			v = collapse(v)
		}
		if seen[an] {
			p.bad("duplicate attribute %q", an)
		}
		seen[an] = true
		if an == "xmlns" || prefixOf(an) == "xmlns" {
			if p.inEnt {
				p.unsure("namespace declaration in an entity")
			}
			if !reURI.MatchString(v) {
				p.unsure("namespace name")
			}
			pre := ""
			if an != "xmlns" {
				pre = local(an)
				if v == "" {
					p.unsure("undeclared prefix")
				}
			}
			if strings.HasPrefix(strings.ToLower(pre), "xml") || v == xmlNS || strings.Contains(v, "www.w3.org") {
				p.unsure("reserved prefix or namespace")
			}
			n.NS = append(n.NS, NSDecl{pre, v})
			p.feat["ns"] = true
		} else {
			if strings.Contains(an, ":") {
				p.feat["attprefix"] = true
				if pre := prefixOf(an); pre != "xml" {
					p.unsure("prefixed attribute")
				} else if an != "xml:lang" && an != "xml:base" {
					p.unsure("xml: attribute")
				}
			}
			n.Attrs = append(n.Attrs, Attr{an, v})
		}
	}
	outer := p.scope
	p.prefixes(n)
	p.scope = append(outer[:len(outer):len(outer)], n.NS...)
	p.startEv(n)
	n.Kids = p.content(append(open, n.Name))
	end := Ev{K: "end", Name: n.Name, URI: p.uri(n.Name)}
	p.scope = outer
	p.mark()
	p.want("</")
	if en := p.name(); en != n.Name {
		p.bad("end tag %q for %q", en, n.Name)
	}
	p.ws()
	p.want(">")
	p.ev(end)
	return n
}

// prefixes tells whether the prefix of the name of n is declared
func (p *refParser) prefixes(n *N) {
	pre := prefixOf(n.Name)
	if pre == "" || pre == "xml" {
		return
	}
	for _, d := range append(p.scope[:len(p.scope):len(p.scope)], n.NS...) {
		if d.Prefix == pre {
			return
		}
	}
	p.bad("prefix %q is not declared", pre)
}

// content goes on to an end tag, or to the end of the text of an entity
func (p *refParser) content(open []string) (kids []*N) {
	var b strings.Builder
	flush := func() {
		if b.Len() > 0 {
			kids = append(kids, &N{K: KText, Text: b.String()})
			b.Reset()
		}
	}
	inText := false
	for {
		if r := p.peek(); r == '<' || r == '&' || r == -1 || !inText {
			p.mark()
		}
		inText = false
		if p.eof() {
			if p.inEnt && len(open) == 0 {
				flush()
				return kids
			}
			p.bad("unexpected end in content")
		}
		switch {
		case p.has("</"):
			if len(open) == 0 {
				p.bad("end tag without start tag")
			}
			flush()
			return kids
		case p.has("<!--"):
			flush()
			n := p.comment()
			p.ev(Ev{K: "comment", Data: n.Text})
			kids = append(kids, n)
		case p.has("<?"):
			flush()
			n := p.pi()
			p.ev(Ev{K: "pi", Name: n.Name, Data: n.Text})
			kids = append(kids, n)
		case p.skip("<![CDATA["):
			for !p.skip("]]>") {
				c := string(p.next())
				b.WriteString(c)
				p.ev(Ev{K: "cdata", Data: c})
			}
			p.feat["cdata"] = true
		case p.has("<"):
			flush()
			kids = append(kids, p.element(open))
		case p.skip("&#"):
			c := string(p.charRef())
			b.WriteString(c)
			p.ev(Ev{K: "chars", Data: c})
			p.feat["charref"] = true
		case p.skip("&"):
			n := p.name()
			p.want(";")
			if s, ok := predef[n]; ok {
				b.WriteString(s)
				p.ev(Ev{K: "chars", Data: s})
				continue
			}
			e := p.entity(n)
			p.feat["entref"] = true
			p.inside(n, e, func() { p.content(nil) })
			p.ev(Ev{K: "ref", Name: n})
			flush()
			kids = append(kids, &N{K: KRef, Name: n})
		case p.has("]]>"):
			p.bad("']]>' in content")
		default:
			inText = true
			c := string(p.next())
			b.WriteString(c)
			p.ev(Ev{K: "chars", Data: c})
		}
	}
}

// ---- the document type declaration ----

func (p *refParser) doctype() {
	p.want("<!DOCTYPE")
	p.needWS()
	d := &DTD{Name: p.qname()}
	p.doc.DTD = d
	p.feat["doctype"] = true
	sp := p.ws()
	if p.has("SYSTEM") || p.has("PUBLIC") {
		p.unsure("external identifier")
	}
	_ = sp
	if p.skip("[") {
		for {
			p.ws()
			p.mark()
			if p.skip("]") {
				break
			}
			switch {
			case p.has("<!--"):
				n := p.comment()
				d.Decls = append(d.Decls, &Decl{K: "comm", Text: n.Text})
			case p.has("<?"):
				n := p.pi()
				d.Decls = append(d.Decls, &Decl{K: "pi", Name: n.Name, Text: n.Text})
			case p.has("<!ELEMENT"):
				d.Decls = append(d.Decls, p.elementDecl())
				p.feat["elemdecl"] = true
			case p.has("<!ATTLIST"):
				d.Decls = append(d.Decls, p.attlist()...)
				p.feat["attlist"] = true
			case p.has("<!ENTITY"):
				d.Decls = append(d.Decls, p.entityDecl())
				p.feat["entdecl"] = true
			case p.has("<!NOTATION"):
				p.unsure("notation")
			case p.peek() == '%':
				p.feat["peref"] = true
				p.unsure("parameter entity reference")
			default:
				p.bad("declaration expected")
			}
		}
		p.ws()
	}
	p.want(">")
}

func (p *refParser) noPE() {
	if p.peek() == '%' {
		p.feat["peref"] = true
		p.unsure("parameter entity reference in a declaration")
	}
}

func (p *refParser) elementDecl() *Decl {
	p.want("<!ELEMENT")
	p.needWS()
	p.noPE()
	d := &Decl{K: "elem", Name: p.qname()}
	p.needWS()
	p.noPE()
	switch {
	case p.skip("EMPTY"):
		d.Type = "EMPTY"
	case p.skip("ANY"):
		d.Type = "ANY"
	default:
		if p.peek() != '(' {
			p.bad("content model expected")
		}
		save := p.i
		p.i++
		p.ws()
		if p.has("#PCDATA") {
			d.Type = "MIXED"
			d.Model = p.mixed()
		} else {
			p.i = save
			d.Type = "CHILDREN"
			d.Model = p.group(0)
		}
	}
	p.ws()
	p.want(">")
	return d
}

// mixed parses after "(" S?
func (p *refParser) mixed() *CM {
	p.want("#PCDATA")
	m := &CM{Op: "or", Kids: []*CM{{Op: "pcdata"}}}
	for {
		p.ws()
		if p.skip(")") {
			break
		}
		p.want("|")
		p.ws()
		p.noPE()
		m.Kids = append(m.Kids, &CM{Op: "name", Name: p.qname()})
	}
	if p.skip("*") {
		m.Occ = "*"
	} else if len(m.Kids) > 1 {
		p.bad("'*' expected after mixed content")
	}
	return m
}

func (p *refParser) occ() string {
	switch p.peek() {
	case '?', '*', '+':
		p.i++
		return string(p.s[p.i-1])
	}
	return ""
}

func (p *refParser) group(depth int) *CM {
	if depth > 100 {
		p.unsure("deep content model")
	}
	p.want("(")
	m := &CM{Op: "seq"}
	sep := rune(0)
	for {
		p.ws()
		p.noPE()
		if p.peek() == '(' {
			m.Kids = append(m.Kids, p.group(depth+1))
		} else {
			n := &CM{Op: "name", Name: p.qname()}
			n.Occ = p.occ()
			m.Kids = append(m.Kids, n)
		}
		p.ws()
		r := p.peek()
		if r == ')' {
			p.i++
			break
		}
		if r != ',' && r != '|' || sep != 0 && r != sep {
			p.bad("separator expected in a content model")
		}
		sep = r
		p.i++
	}
	if sep == '|' {
		m.Op = "or"
	}
	m.Occ = p.occ()
	return m
}

var attTypes = []string{"CDATA", "IDREFS", "IDREF", "ID", "ENTITY", "ENTITIES", "NMTOKENS", "NMTOKEN"}

func (p *refParser) attlist() (l []*Decl) {
	p.want("<!ATTLIST")
	p.needWS()
	p.noPE()
	elem := p.qname()
	for {
		sp := p.ws()
		if p.skip(">") {
			return l
		}
		if !sp {
			p.bad("white space expected in ATTLIST")
		}
		p.noPE()
		d := &Decl{K: "att", Name: elem, Att: p.qname()}
		if strings.HasPrefix(d.Att, "xml") {
			p.unsure("reserved attribute declared")
		}
		p.needWS()
		p.noPE()
		if p.skip("NOTATION") {
			d.AttType = "NOTATION"
			p.needWS()
			if p.noPE(); p.peek() != '(' {
				p.bad("'(' expected after NOTATION")
			}
		}
		if p.peek() == '(' {
			if d.AttType == "" {
				d.AttType = "ENUM"
			}
			p.i++
			seen := map[string]bool{}
			for {
				p.ws()
				p.noPE()
				t := ""
				if d.AttType == "ENUM" {
					t = p.nmtoken()
				} else if t = p.name(); strings.Contains(t, ":") {
					p.unsure("colon in the name of a notation")
				}
				if seen[t] {
					p.unsure("duplicate token")
				}
				seen[t] = true
				d.Enum = append(d.Enum, t)
				p.ws()
				if p.skip(")") {
					break
				}
				p.want("|")
			}
		} else {
			for _, t := range attTypes {
				if p.has(t) {
					d.AttType = t
					break
				}
			}
			if d.AttType == "" {
				p.bad("attribute type expected")
			}
			p.skip(d.AttType)
		}
		p.needWS()
		p.noPE()
		tok := d.AttType != "CDATA"
		switch {
		case p.skip("#REQUIRED"):
			d.Def = "#REQUIRED"
		case p.skip("#IMPLIED"):
			d.Def = "#IMPLIED"
		default:
			if p.skip("#FIXED") {
				d.Def = "#FIXED"
				p.needWS()
			}
			if d.AttType == "ID" {
				p.unsure("ID with a default")
			}
			d.Default = p.attValue(tok, true)
			if tok {
				d.Default = collapse(d.Default)
			}
		}
		l = append(l, d)
		if k := elem + " " + d.Att; p.atts[k] == nil {
			p.atts[k] = d
		}
	}
}

func (p *refParser) entityDecl() *Decl {
	p.want("<!ENTITY")
	p.needWS()
	d := &Decl{K: "ent"}
	if p.skip("%") {
		d.K = "pent"
		p.needWS()
	}
	d.Name = p.name()
	if strings.Contains(d.Name, ":") {
		p.bad("colon in the name of an entity")
	}
	p.needWS()
	p.noPE()
	if p.has("SYSTEM") || p.has("PUBLIC") {
		p.unsure("external entity")
	}
	qc := p.peek()
	if qc != '"' && qc != '\'' {
		p.bad("entity value expected")
	}
	p.i++
	var b strings.Builder
	for {
		r := p.next()
		if r == qc {
			break
		}
		switch r {
		case '%':
			p.unsure("'%%' in an entity value")
		case '&':
			if p.skip("#") {
				c := p.charRef()
				b.WriteRune(c)
				continue
			}
			n := p.name()
			p.want(";")
			b.WriteString("&" + n + ";")
		default:
			b.WriteRune(r)
		}
	}
	d.Text = b.String()
	p.ws()
	p.want(">")
	if d.K == "ent" {
		if _, ok := predef[d.Name]; ok {
			p.unsure("predefined entity redeclared")
		}
		if p.ents[d.Name] == nil {
			p.ents[d.Name] = &refEnt{text: []rune(d.Text)}
		}
	}
	return d
}

// parseDecl parses one dumped declaration
func parseDecl(s string) (d []*Decl, err error) {
	return parseDeclIn(s, map[string]*refEnt{})
}

// parseDeclIn also takes the entities declared before, and adds to them
func parseDeclIn(s string, ents map[string]*refEnt) (d []*Decl, err error) {
	p := &refParser{ents: ents, atts: map[string]*Decl{}, feat: map[string]bool{}, doc: &Doc{}, s: []rune(s), loose: true}
	defer func() {
		if r := recover(); r != nil {
			e, ok := r.(refErr)
			if !ok {
				panic(r)
			}
			if e.v == vUnsure {
				d = []*Decl{{K: "raw", Text: s}}
				return
			}
			err = fmt.Errorf("%q: %s at %d", s, e.msg, e.pos)
		}
	}()
	p.ws()
	switch {
	case p.has("<!ELEMENT"):
		d = []*Decl{p.elementDecl()}
	case p.has("<!ATTLIST"):
		d = p.attlist()
	case p.has("<!ENTITY"):
		d = []*Decl{p.entityDecl()}
	default:
		p.bad("not a declaration")
	}
	p.ws()
	if !p.eof() {
		p.bad("more than a declaration")
	}
	return d, nil
}
