package props

import (
	"fmt"
	"regexp"
	"strings"

	"pgregory.net/rapid"
)

// speller writes a model down, choosing among the legal spellings. With a
// nil t it writes the plainest one.
type speller struct {
	t     *rapid.T
	b     strings.Builder
	last  byte             // last byte written
	pos   map[string][]int // places by kind, if not nil
	plain bool
	noCR  bool // only use \n for line ends
	// noCDATA: no CDATA sections
	noCDATA bool
	// canEnc tells whether a character can be written literally
	canEnc func(r rune) bool
}

func newSpeller(t *rapid.T) *speller { return &speller{t: t, plain: t == nil} }

func (s *speller) w(str string) {
	if str == "" {
		return
	}
	s.b.WriteString(str)
	s.last = str[len(str)-1]
}

// mark records a place of the given kind
func (s *speller) mark(kind string) {
	if s.pos != nil {
		s.pos[kind] = append(s.pos[kind], s.b.Len())
	}
}

func (s *speller) ch(n, d int) bool {
	if s.plain {
		return false
	}
	return chance(s.t, n, d)
}

// nl writes a line end
func (s *speller) nl() {
	if s.plain || s.noCR {
		s.w("\n")
		return
	}
	switch ri(s.t, 0, 5) {
	case 0:
		s.w("\r\n")
	case 1:
		s.w("\r")
	default:
		if s.last == '\r' {
			s.w("\r\n") // "\r" + "\n" would be a single line end
		} else {
			s.w("\n")
		}
	}
}

// ws writes white space inside markup
func (s *speller) ws(min int) {
	if s.plain {
		if min > 0 {
			s.w(" ")
		}
		return
	}
	if !chance(s.t, 1, 5) {
		if min > 0 {
			s.w(" ")
		}
		return
	}
	n := ri(s.t, min, 3)
	if chance(s.t, 1, 50) {
		n = ri(s.t, 1, 200)
	}
	for ; n > 0; n-- {
		switch ri(s.t, 0, 3) {
		case 0:
			s.nl()
		case 1:
			s.w("\t")
		default:
			s.w(" ")
		}
	}
}

func (s *speller) charRef(r rune) {
	if s.plain {
		s.w(fmt.Sprintf("&#%d;", r))
		return
	}
	z := ""
	if chance(s.t, 1, 4) {
		z = strings.Repeat("0", ri(s.t, 1, 3))
		if chance(s.t, 1, 8) {
			z = strings.Repeat("0", ri(s.t, 4, 120))
		}
	}
	switch ri(s.t, 0, 2) {
	case 0:
		s.w(fmt.Sprintf("&#%s%d;", z, r))
	case 1:
		s.w(fmt.Sprintf("&#x%s%x;", z, r))
	default:
		s.w(fmt.Sprintf("&#x%s%X;", z, r))
	}
}

var predefOf = map[rune]string{'<': "&lt;", '>': "&gt;", '&': "&amp;", '\'': "&apos;", '"': "&quot;"}

// esc writes a character as a reference
func (s *speller) esc(r rune) {
	if p, ok := predefOf[r]; ok && (s.plain || chance(s.t, 1, 2)) {
		s.w(p)
		return
	}
	s.charRef(r)
}

// run writes a line end or a literal character
func (s *speller) lit(r rune) {
	if r == '\n' {
		s.nl()
		return
	}
	s.w(string(r))
}

func (s *speller) canLit(r rune) bool {
	return r != '\r' && (s.canEnc == nil || s.canEnc(r))
}

// text writes character data
func (s *speller) text(str string) {
	rs := []rune(str)
	brackets := 0 // literal ']' written just before
	for i := 0; i < len(rs); {
		if s.ch(1, 12) && !s.noCDATA {
			// a CDATA section
			n := ri(s.t, 0, len(rs)-i)
			j := i
			for ; j < i+n && s.canLit(rs[j]); j++ {
				if j-i >= 2 && rs[j] == '>' && rs[j-1] == ']' && rs[j-2] == ']' {
					break
				}
			}
			s.w("<![CDATA[")
			s.mark("cdata")
			for ; i < j; i++ {
				s.lit(rs[i])
			}
			s.mark("cdata")
			s.w("]]>")
			brackets = 0
			s.mark("content")
			continue
		}
		r := rs[i]
		i++
		switch {
		case r == '<' || r == '&' || !s.canLit(r):
			s.esc(r)
			brackets = 0
		case r == '>' && brackets >= 2:
			s.esc(r)
			brackets = 0
		case s.ch(1, 16):
			s.esc(r)
			brackets = 0
		default:
			s.lit(r)
			if r == ']' {
				brackets++
			} else {
				brackets = 0
			}
		}
	}
	if s.ch(1, 30) && len(rs) > 0 && !s.noCDATA {
		s.w("<![CDATA[]]>")
	}
}

func (s *speller) quote() string {
	if s.ch(1, 2) {
		return "'"
	}
	return "\""
}

// attValue writes the value of an attribute that is not tokenised
func (s *speller) attValue(v string) {
	qc := s.quote()
	s.w(qc)
	s.mark("attval")
	defer s.mark("aftval")
	for _, r := range v {
		switch {
		case r == '<' || r == '&' || r == '\n' || r == '\t' || string(r) == qc || !s.canLit(r):
			s.esc(r)
		case s.ch(1, 16):
			s.esc(r)
		case r == ' ' && s.ch(1, 8):
			// becomes a space
			if rb(s.t) {
				s.nl()
			} else {
				s.w("\t")
			}
		default:
			s.w(string(r))
		}
	}
	s.w(qc)
}

func (s *speller) eq() {
	s.ws(0)
	s.w("=")
	s.ws(0)
}

func (s *speller) rawLines(str string) {
	for _, r := range str {
		s.lit(r)
	}
}

func (s *speller) node(n *N) {
	switch n.K {
	case KText:
		s.text(n.Text)
	case KComm:
		s.w("<!--")
		s.mark("comment")
		s.rawLines(n.Text)
		s.mark("comment")
		s.w("-->")
	case KPI:
		s.w("<?" + n.Name)
		if n.Text != "" {
			s.ws(1)
			s.mark("pi")
			s.rawLines(n.Text)
			s.mark("pi")
		} else {
			s.ws(0)
		}
		s.w("?>")
	case KRef:
		s.w("&" + n.Name + ";")
	case KElem:
		s.w("<")
		s.mark("name")
		s.w(n.Name)
		s.mark("tag")
		ni, ai := 0, 0
		for ni < len(n.NS) || ai < len(n.Attrs) {
			s.ws(1)
			useNS := ni < len(n.NS)
			if useNS && ai < len(n.Attrs) && s.ch(1, 3) {
				useNS = false
			}
			if useNS {
				d := n.NS[ni]
				ni++
				if d.Prefix == "" {
					s.w("xmlns")
				} else {
					s.w("xmlns:" + d.Prefix)
				}
				s.eq()
				s.attValue(d.URI)
			} else {
				a := n.Attrs[ai]
				ai++
				s.w(a.Name)
				s.eq()
				s.attValue(a.Value)
			}
			s.mark("tag")
		}
		s.ws(0)
		if len(n.Kids) == 0 && !s.ch(1, 3) {
			s.w("/>")
			return
		}
		s.w(">")
		for _, k := range n.Kids {
			s.mark("content")
			s.node(k)
		}
		s.mark("content")
		s.w("</")
		s.mark("endname")
		s.w(n.Name)
		s.mark("endtag")
		s.ws(0)
		s.w(">")
	}
}

func (s *speller) xmlDecl(d *XMLDecl) {
	s.w("<?xml")
	s.mark("xmldecl")
	s.ws(1)
	s.mark("xmldecl")
	s.w("version")
	s.eq()
	qc := s.quote()
	s.w(qc + d.Version + qc)
	s.mark("xmldecl")
	if d.Encoding != "" {
		s.ws(1)
		s.w("encoding")
		s.eq()
		qc := s.quote()
		s.w(qc + d.Encoding + qc)
	}
	s.mark("xmldecl")
	if d.Standalone != "" {
		s.ws(1)
		s.w("standalone")
		s.eq()
		qc := s.quote()
		s.w(qc + d.Standalone + qc)
	}
	s.mark("xmldecl")
	s.ws(0)
	s.w("?>")
}

func (s *speller) misc(l []*N) {
	s.top()
	s.mark("top")
	for _, n := range l {
		s.node(n)
		s.top()
		s.mark("top")
	}
}

// top writes white space between top-level constructs
func (s *speller) top() {
	if s.plain || s.ch(1, 2) {
		return
	}
	s.ws(0)
	s.nl()
}

func (s *speller) cm(c *CM) {
	switch c.Op {
	case "name":
		s.w(c.Name)
	case "pcdata":
		s.w("#PCDATA")
	default:
		s.w("(")
		s.mark("cm")
		for i, k := range c.Kids {
			if i > 0 {
				s.mark("cm")
				if c.Op == "or" {
					s.w("|")
				} else {
					s.w(",")
				}
			}
			s.ws(0)
			s.cm(k)
			s.ws(0)
		}
		s.w(")")
	}
	s.w(c.Occ)
}

var reEntRef = regexp.MustCompile(`^&[a-zé][a-z0-9]*;`)

// entValue writes the literal of an entity with the given replacement text
func (s *speller) entValue(v string) {
	qc := s.quote()
	s.w(qc)
	s.mark("entval")
	rs := []rune(v)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		switch {
		case r == '&':
			// a reference in the replacement text is bypassed when it is
			// written literally; anything else has to be escaped
			if m := reEntRef.FindString(string(rs[i:])); m != "" && !s.ch(1, 3) {
				s.w(m)
				i += len([]rune(m)) - 1
			} else {
				s.charRef(r)
			}
		case r == '%' || string(r) == qc || !s.canLit(r):
			s.charRef(r)
		case s.ch(1, 16):
			s.charRef(r)
		default:
			s.lit(r)
		}
	}
	s.w(qc)
}

// tokValue writes a value of a tokenised attribute: more space is allowed
func (s *speller) tokValue(v string) {
	qc := s.quote()
	s.w(qc)
	pad := func() {
		if s.ch(1, 5) {
			for n := ri(s.t, 1, 3); n > 0; n-- {
				switch ri(s.t, 0, 3) {
				case 0:
					s.nl()
				case 1:
					s.w("\t")
				case 2:
					s.w("&#32;")
				default:
					s.w(" ")
				}
			}
		}
	}
	pad()
	for _, r := range v {
		switch {
		case r == ' ':
			pad()
			s.w(" ")
			pad()
		case r == '<' || r == '&' || string(r) == qc || !s.canLit(r):
			s.esc(r)
		case s.ch(1, 16):
			s.esc(r)
		default:
			s.w(string(r))
		}
	}
	pad()
	s.w(qc)
}

func (s *speller) attDef(d *Decl) {
	s.ws(1)
	s.w(d.Att)
	s.ws(1)
	s.mark("decl")
	if d.AttType == "ENUM" || d.AttType == "NOTATION" {
		if d.AttType == "NOTATION" {
			s.w("NOTATION")
			s.ws(1)
		}
		s.w("(")
		for i, e := range d.Enum {
			s.mark("enum")
			if i > 0 {
				s.w("|")
			}
			s.ws(0)
			s.w(e)
			s.ws(0)
		}
		s.w(")")
	} else {
		s.w(d.AttType)
	}
	s.mark("decl")
	s.ws(1)
	s.w(d.Def)
	if d.Def == "#FIXED" {
		s.mark("decl")
		s.ws(1)
	}
	if d.Def == "" || d.Def == "#FIXED" {
		if d.AttType == "CDATA" {
			s.attValue(d.Default)
		} else {
			s.tokValue(d.Default)
		}
	}
}

func (s *speller) decls(l []*Decl) {
	s.mark("dtd")
	defer s.mark("dtd")
	for i := 0; i < len(l); i++ {
		d := l[i]
		s.ws(0)
		s.mark("dtd")
		switch d.K {
		case "elem":
			s.w("<!ELEMENT")
			s.mark("decl")
			s.ws(1)
			s.w(d.Name)
			s.ws(1)
			switch d.Type {
			case "EMPTY", "ANY":
				s.mark("decl")
				s.w(d.Type)
			case "MIXED":
				s.w("(")
				for i, k := range d.Model.Kids {
					if i > 0 {
						s.w("|")
					}
					s.ws(0)
					s.cm(k)
					s.ws(0)
				}
				s.w(")" + d.Model.Occ)
			default:
				s.cm(d.Model)
			}
			s.ws(0)
			s.w(">")
		case "att":
			s.w("<!ATTLIST")
			s.mark("decl")
			s.ws(1)
			s.w(d.Name)
			s.mark("decl")
			s.attDef(d)
			for i+1 < len(l) && l[i+1].K == "att" && l[i+1].Name == d.Name && !s.plain && rb(s.t) {
				i++
				s.attDef(l[i])
			}
			s.ws(0)
			s.w(">")
		case "ent", "pent":
			s.w("<!ENTITY")
			s.ws(1)
			if d.K == "pent" {
				s.w("%")
				s.ws(1)
			}
			s.w(d.Name)
			s.mark("decl")
			s.ws(1)
			s.entValue(d.Text)
			s.mark("decl")
			s.ws(0)
			s.w(">")
		case "comm":
			s.node(&N{K: KComm, Text: d.Text})
		case "pi":
			s.node(&N{K: KPI, Name: d.Name, Text: d.Text})
		}
		if s.plain || s.ch(1, 2) {
			s.nl()
		}
	}
}

func (s *speller) doctype(d *DTD) {
	s.w("<!DOCTYPE")
	s.ws(1)
	s.mark("dtname")
	s.w(d.Name)
	s.mark("dtname")
	s.ws(0)
	if len(d.Decls) > 0 || s.ch(1, 4) {
		s.w("[")
		s.ws(0)
		s.decls(d.Decls)
		s.w("]")
		s.ws(0)
	}
	s.w(">")
}

func (s *speller) document(d *Doc) {
	if d.Decl != nil {
		s.xmlDecl(d.Decl)
	}
	s.misc(d.Before)
	if d.DTD != nil {
		s.doctype(d.DTD)
		s.misc(d.Mid)
	}
	s.node(d.Root)
	s.mark("after")
	s.misc(d.After)
	s.mark("after")
}

// spell writes d in a random spelling, plainly if t is nil
func spell(t *rapid.T, d *Doc) []byte {
	s := newSpeller(t)
	s.document(d)
	return []byte(s.b.String())
}

// spellMarks also gives the places where things may be inserted
func spellMarks(t *rapid.T, d *Doc) ([]byte, map[string][]int) {
	s := newSpeller(t)
	s.pos = map[string][]int{}
	s.document(d)
	return []byte(s.b.String()), s.pos
}
