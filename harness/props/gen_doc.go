package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// GenOpt limits what documents are made of.
type GenOpt struct {
	NoNS     bool
	NoDTD    bool
	NoDecl   bool
	NoEnts   bool
	DTD      bool // always have one
	DTDSize  int  // up to that many declarations
	MaxElems int
	Chars    func(t *rapid.T) string // text source, nil: everything
}

type docGen struct {
	t     *rapid.T
	o     GenOpt
	left  int
	ents  []string // entities that may be referred to in content
	names []string
}

func (g *docGen) text(min, max int) string {
	if g.o.Chars != nil {
		return g.o.Chars(g.t)
	}
	if chance(g.t, 1, 150) {
		return genLongText(g.t, true)
	}
	return genText(g.t, min, max, true)
}

// long draws text without carriage returns
func (g *docGen) long(min, max int) string {
	if chance(g.t, 1, 150) {
		return genLongText(g.t, false)
	}
	return genText(g.t, min, max, false)
}

func (g *docGen) comment() *N {
	var s string
	if g.o.Chars != nil {
		s = strings.Replace(g.o.Chars(g.t), "\r", "", -1)
	} else {
		s = g.long(0, 10)
	}
	s = strings.Replace(s, "--", "- -", -1)
	s = strings.Replace(s, "--", "-", -1)
	if strings.HasSuffix(s, "-") {
		s += " "
	}
	return &N{K: KComm, Text: s}
}

func (g *docGen) pi() *N {
	n := &N{K: KPI, Name: genPITarget(g.t)}
	if g.o.Chars != nil {
		n.Name = pick(g.t, []string{"x", "php", "xml-stylesheet"})
	}
	if !chance(g.t, 1, 4) {
		var s string
		if g.o.Chars != nil {
			s = strings.Replace(g.o.Chars(g.t), "\r", "", -1)
		} else {
			s = g.long(0, 10)
		}
		s = strings.Replace(s, "?>", "? >", -1)
		s = strings.TrimLeft(s, " \t\n\r")
		n.Text = s
	}
	return n
}

func (g *docGen) misc(max int) (l []*N) {
	for i := ri(g.t, 0, max); i > 0; i-- {
		if rb(g.t) {
			l = append(l, g.comment())
		} else {
			l = append(l, g.pi())
		}
	}
	return l
}

var uris = []string{"http://a/", "http://b/x#y", "urn:c:1", "http://a/", "rel", "http://w/1?q=1&r=2", "u<v>\"w'", "é/日本", "http://a", "HTTP://a/", "http://long/" + strings.Repeat("x/", 150)}

// name draws an element name given the prefixes in scope
func (g *docGen) elemName(scope []NSDecl) string {
	n := genNCName(g.t)
	if g.o.Chars != nil {
		n = pick(g.t, []string{"a", "b", "item"})
	}
	if g.o.NoNS || len(scope) == 0 || !chance(g.t, 1, 3) {
		if !g.o.NoNS && chance(g.t, 1, 60) {
			return "xml:" + n
		}
		return n
	}
	d := pick(g.t, scope)
	if d.Prefix == "" {
		return n
	}
	return d.Prefix + ":" + n
}

func (g *docGen) elem(scope []NSDecl, depth int) *N {
	t := g.t
	n := &N{K: KElem}
	if !g.o.NoNS && chance(t, 1, 3) {
		seen := map[string]bool{}
		for i := ri(t, 1, 3); i > 0; i-- {
			d := NSDecl{URI: pick(t, uris)}
			if !chance(t, 1, 3) {
				d.Prefix = pick(t, []string{"p", "q", "ns1", "é"})
				if chance(t, 1, 12) {
					d.Prefix = lookalike(t, "p")
				}
			} else if chance(t, 1, 3) {
				d.URI = "" // undeclare the default namespace
			}
			if seen[d.Prefix] {
				continue
			}
			seen[d.Prefix] = true
			n.NS = append(n.NS, d)
		}
		if chance(t, 1, 30) {
			// many of them
			for i := ri(t, 4, 40); i > 0; i-- {
				n.NS = append(n.NS, NSDecl{Prefix: fmt.Sprint("w", i), URI: pick(t, uris)})
			}
		}
		scope = append(scope[:len(scope):len(scope)], n.NS...)
	}
	n.Name = g.elemName(scope)
	if chance(t, 1, 2) {
		seen := map[string]bool{}
		most := 4
		if chance(t, 1, 40) {
			most = 60
		}
		for i := ri(t, 0, most); i > 0; i-- {
			an := genNCName(t)
			if g.o.Chars != nil {
				an = pick(t, []string{"a", "b", "c", "d"})
			}
			if chance(t, 1, 20) {
				an = pick(t, []string{"xml:lang", "xml:base"})
			} else if !g.o.NoNS && chance(t, 1, 8) {
				var ps []string
				for _, d := range scope {
					if d.Prefix != "" {
						ps = append(ps, d.Prefix)
					}
				}
				if len(ps) > 0 {
					// one prefix per element only, so that the names can
					// not collide through their namespaces
					an = ps[0] + ":" + an
				}
			}
			if seen[an] {
				continue
			}
			seen[an] = true
			n.Attrs = append(n.Attrs, Attr{an, g.text(0, 10)})
		}
	}
	k := ri(t, 0, 5)
	if depth == 0 && k == 0 {
		k = 1
	}
	if g.o.Chars == nil && chance(t, 1, 80) {
		k = ri(t, 6, 120)
	}
	deepen := chance(t, 1, 40)
	for i := 0; i < k; i++ {
		switch c := ri(t, 0, 9); {
		case len(g.ents) > 0 && chance(t, 1, 5):
			n.Kids = append(n.Kids, &N{K: KRef, Name: pick(t, g.ents)})
		case c <= 3 && g.left > 0 && depth < 40:
			g.left--
			n.Kids = append(n.Kids, g.elem(scope, depth+1))
		case c <= 6:
			if s := g.text(1, 12); s != "" {
				n.Kids = append(n.Kids, &N{K: KText, Text: s})
			}
		case c == 7:
			n.Kids = append(n.Kids, g.comment())
		case c == 8:
			n.Kids = append(n.Kids, g.pi())
		default:
			if len(g.ents) > 0 {
				n.Kids = append(n.Kids, &N{K: KRef, Name: pick(t, g.ents)})
			}
		}
	}
	if deepen {
		// a long chain of elements
		top := &N{K: KElem, Name: genNCName(t)}
		cur := top
		most := 60
		if chance(t, 1, 8) {
			most = 600
		}
		for i := ri(t, 1, most); i > 0; i-- {
			x := &N{K: KElem, Name: pick(t, plainNames)}
			cur.Kids = append(cur.Kids, x)
			cur = x
		}
		cur.Kids = append(cur.Kids, &N{K: KText, Text: "deep"})
		n.Kids = append(n.Kids, top)
	}
	n.Kids = norm(n.Kids)
	return n
}

// genDoc draws a document
func genDoc(t *rapid.T, o GenOpt) *Doc {
	if o.MaxElems == 0 {
		o.MaxElems = 12
	}
	g := &docGen{t: t, o: o, left: o.MaxElems}
	d := &Doc{}
	if !o.NoDecl && rb(t) {
		d.Decl = &XMLDecl{Version: "1.0"}
		if chance(t, 1, 3) {
			d.Decl.Encoding = pick(t, []string{"utf-8", "UTF-8", "Utf-8", "utf8"})
		}
		d.Decl.Standalone = pick(t, []string{"", "", "yes", "no"})
	}
	d.Before = g.misc(2)
	if !o.NoDTD && (o.DTD || chance(t, 1, 3)) {
		d.DTD = genDTD(t, o)
		if !o.NoEnts {
			for _, x := range bound(d.DTD.Decls) {
				if x.K == "ent" && x.Name != "atonly" {
					g.ents = append(g.ents, x.Name)
				}
			}
		}
		d.Mid = g.misc(2)
	}
	d.Root = g.elem(nil, 0)
	if d.DTD != nil && !o.NoNS && prefixOf(d.Root.Name) == "" {
		d.DTD.Name = d.Root.Name
	}
	d.After = g.misc(2)
	if err := d.Root.resolve(nil); err != nil {
		panic(fmt.Sprint("generator: ", err))
	}
	// declared attribute types and defaults must not change the values
	// the model gives: see genDTD, which uses attribute names of its own
	return d
}

// ---- internal subsets ----

func genCM(t *rapid.T, depth int) *CM {
	if depth == 0 && chance(t, 1, 80) {
		// many levels
		m := &CM{Op: "name", Name: genDeclName(t), Occ: pick(t, []string{"", "?", "*", "+"})}
		for k := ri(t, 1, 60); k > 0; k-- {
			l := []*CM{m}
			if rb(t) {
				l = append(l, &CM{Op: "name", Name: pick(t, plainNames)})
			}
			m = &CM{Op: pick(t, []string{"seq", "or"}), Kids: l, Occ: pick(t, []string{"", "", "", "?", "*", "+"})}
			if len(l) == 1 {
				m.Op = "seq"
			}
		}
		return m
	}
	if depth == 0 || depth < 4 && chance(t, 1, 3) {
		m := &CM{Op: pick(t, []string{"seq", "or"}), Occ: pick(t, []string{"", "", "?", "*", "+"})}
		k := ri(t, 1, 4)
		if chance(t, 1, 60) {
			k = ri(t, 5, 40)
		}
		if k == 1 {
			m.Op = "seq" // there is no difference
		}
		for ; k > 0; k-- {
			m.Kids = append(m.Kids, genCM(t, depth+1))
		}
		return m
	}
	return &CM{Op: "name", Name: genDeclName(t), Occ: pick(t, []string{"", "", "?", "*", "+"})}
}

func genDeclName(t *rapid.T) string {
	if chance(t, 1, 8) {
		return "p:" + genNCName(t)
	}
	return genNCName(t)
}

func genMixed(t *rapid.T) *CM {
	m := &CM{Op: "or", Kids: []*CM{{Op: "pcdata"}}}
	seen := map[string]bool{}
	most := 3
	if chance(t, 1, 40) {
		most = 60
	}
	for k := ri(t, 0, most); k > 0; k-- {
		n := genDeclName(t)
		if seen[n] {
			continue
		}
		seen[n] = true
		m.Kids = append(m.Kids, &CM{Op: "name", Name: n})
	}
	if len(m.Kids) > 1 || rb(t) {
		m.Occ = "*"
	}
	return m
}

func genElemDecl(t *rapid.T) *Decl {
	d := &Decl{K: "elem", Name: genDeclName(t)}
	switch ri(t, 0, 5) {
	case 0:
		d.Type = "EMPTY"
	case 1:
		d.Type = "ANY"
	case 2, 3:
		d.Type = "MIXED"
		d.Model = genMixed(t)
	default:
		d.Type = "CHILDREN"
		d.Model = genCM(t, 0)
	}
	return d
}

func genNmtoken(t *rapid.T) string {
	if rb(t) {
		return genNCName(t)
	}
	var b strings.Builder
	for n := ri(t, 1, 4); n > 0; n-- {
		b.WriteRune(genNameChar(t))
	}
	return b.String()
}

// defaults of attributes: text without control characters, as the value is
// what the reference form is compared by
func genDefault(t *rapid.T, typ string, enum []string) string {
	switch typ {
	case "CDATA":
		if chance(t, 1, 80) {
			return genLongText(t, true)
		}
		return genText(t, 0, 8, true)
	case "ENUM", "NOTATION":
		return pick(t, enum)
	case "IDREF", "ENTITY":
		return genNCName(t)
	case "NMTOKEN":
		return genNmtoken(t)
	default:
		var l []string
		most := 3
		if chance(t, 1, 40) {
			most = 60
		}
		for n := ri(t, 1, most); n > 0; n-- {
			l = append(l, genNCName(t))
		}
		return strings.Join(l, " ")
	}
}

func genAttDecl(t *rapid.T, elem, att string) *Decl {
	d := &Decl{K: "att", Name: elem, Att: att}
	d.AttType = pick(t, []string{"CDATA", "CDATA", "ENUM", "ID", "IDREF", "IDREFS", "ENTITY", "ENTITIES", "NMTOKEN", "NMTOKENS", "NOTATION"})
	if d.AttType == "ENUM" || d.AttType == "NOTATION" {
		seen := map[string]bool{}
		most := 4
		if chance(t, 1, 40) {
			most = 60
		}
		for n := ri(t, 1, most); n > 0; n-- {
			s := genNmtoken(t)
			if d.AttType == "NOTATION" {
				s = genNCName(t)
			}
			if !seen[s] {
				seen[s] = true
				d.Enum = append(d.Enum, s)
			}
		}
	}
	d.Def = pick(t, []string{"", "", "#REQUIRED", "#IMPLIED", "#FIXED"})
	if d.AttType == "ID" {
		d.Def = pick(t, []string{"#REQUIRED", "#IMPLIED"})
	}
	if d.Def == "" || d.Def == "#FIXED" {
		d.Default = genDefault(t, d.AttType, d.Enum)
	}
	return d
}

// genEntText draws a replacement text that is legal both in content and in
// attribute values: no markup, and '&' and '<' only as references.
func genEntText(t *rapid.T, known []string) string {
	var b strings.Builder
	most := 5
	if chance(t, 1, 60) {
		most, known = 200, nil
	}
	for n := ri(t, 0, most); n > 0; n-- {
		switch ri(t, 0, 6) {
		case 6:
			// the same more than once
			x := pick(t, []string{"\r", "%", "'", "\"", "&#13;", "&#38;", "é"})
			for k := ri(t, 2, 5); k > 0; k-- {
				b.WriteString(x + pick(t, []string{"", "", "x", "&apos;"}))
			}
		case 0:
			b.WriteString(pick(t, []string{"&lt;", "&amp;", "&#60;", "&#38;", "&#x41;", "&quot;", "&apos;", "&gt;"}))
		case 1:
			if len(known) > 0 {
				b.WriteString("&" + pick(t, known) + ";")
			}
		default:
			for k := ri(t, 1, 4); k > 0; k-- {
				switch r := genChar(t, false); r {
				case '&', '<', '\n', '\t', ']', '>':
					b.WriteRune('x')
				default:
					b.WriteRune(r)
				}
			}
		}
	}
	return b.String()
}

// genDTD draws an internal subset. The attributes it declares have names
// starting with "dcl", so that they do not touch those of the document.
func genDTD(t *rapid.T, o GenOpt) *DTD {
	g := &docGen{t: t, o: o}
	d := &DTD{Name: genDeclName(t)}
	max := 6
	if o.DTDSize > 0 {
		max = o.DTDSize
	} else if chance(t, 1, 4) {
		return d
	}
	if chance(t, 1, 40) {
		max = 80
	}
	var ents []string
	declared := map[string]bool{}
	for n := ri(t, 0, max); n > 0; n-- {
		switch ri(t, 0, 6) {
		case 0, 1:
			x := genElemDecl(t)
			// in a document with element content, white space is
			// reported in another way; the tree keeps it
			if declared["e"+x.Name] && !chance(t, 1, 4) {
				continue
			}
			declared["e"+x.Name] = true
			d.Decls = append(d.Decls, x)
		case 2, 3:
			el := genDeclName(t)
			for k := ri(t, 1, 3); k > 0; k-- {
				a := "dcl" + genNCName(t)
				if chance(t, 1, 6) {
					a = "p:dcl" + genNCName(t)
				}
				if declared["a"+el+" "+a] && !chance(t, 1, 4) {
					continue
				}
				declared["a"+el+" "+a] = true
				d.Decls = append(d.Decls, genAttDecl(t, el, a))
			}
		case 4:
			if o.NoEnts {
				continue
			}
			name := pick(t, []string{"e1", "e2", "e3", "ent", "é"})
			if chance(t, 1, 6) {
				name = lookalike(t, "e1")
			}
			if declared["g"+name] {
				if chance(t, 1, 3) {
					// declared again: not binding
					d.Decls = append(d.Decls, &Decl{K: "ent", Name: name, Text: "again"})
				}
				continue
			}
			declared["g"+name] = true
			d.Decls = append(d.Decls, &Decl{K: "ent", Name: name, Text: genEntText(t, ents)})
			ents = append(ents, name)
		case 5:
			if o.NoEnts {
				continue
			}
			name := pick(t, []string{"pe1", "e1"})
			d.Decls = append(d.Decls, &Decl{K: "pent", Name: name, Text: genEntText(t, nil)})
		default:
			if rb(t) {
				c := g.comment()
				d.Decls = append(d.Decls, &Decl{K: "comm", Text: c.Text})
			} else {
				c := g.pi()
				d.Decls = append(d.Decls, &Decl{K: "pi", Name: c.Name, Text: c.Text})
			}
		}
	}
	return d
}
