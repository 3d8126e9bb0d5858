package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// Namespace names written with references: to characters, to predefined
// entities and to entities of the document, which may refer to others.

type uriCase struct {
	Src  []byte
	Doc  *Doc
	Refs int
	Bad  string
}

type uriGen struct {
	t     *rapid.T
	names []string
	text  map[string]string // what an entity stands for
	refs  int
}

const xmlnsNS = "http://www.w3.org/2000/xmlns/"

// charRef spells r as a reference
func charRef(t *rapid.T, r rune) string {
	if rb(t) {
		return fmt.Sprintf("&#%d;", r)
	}
	return fmt.Sprintf("&#x%s%x;", strings.Repeat("0", ri(t, 0, 3)), r)
}

// spell writes s for an attribute value, or for the value of an entity that
// is to be referred to in one
func (g *uriGen) spell(s string, entity bool) string {
	var b strings.Builder
	for _, r := range s {
		if !entity {
			switch {
			case r == '<':
				b.WriteString(pick(g.t, []string{"&lt;", "&#60;", "&#x3C;"}))
			case r == '&':
				b.WriteString(pick(g.t, []string{"&amp;", "&#38;", "&#x26;"}))
			case r == '"':
				b.WriteString(pick(g.t, []string{"&quot;", "&#34;"}))
			case chance(g.t, 1, 6):
				b.WriteString(charRef(g.t, r))
			default:
				b.WriteRune(r)
			}
			continue
		}
		switch {
		case r == '<':
			b.WriteString(pick(g.t, []string{"&lt;", "&#38;lt;", "&#38;#60;"}))
		case r == '&':
			b.WriteString(pick(g.t, []string{"&amp;", "&#38;#38;", "&#x26;#x26;"}))
		case r == '"':
			b.WriteString(pick(g.t, []string{"&quot;", "&#34;", "&#38;#34;"}))
		case chance(g.t, 1, 6):
			b.WriteString(charRef(g.t, r))
		case chance(g.t, 1, 10):
			b.WriteString("&#38;" + charRef(g.t, r)[1:])
		default:
			b.WriteRune(r)
		}
	}
	return b.String()
}

// value draws some text and its spelling
func (g *uriGen) value(most int, entity bool) (text, lit string) {
	for n := ri(g.t, 0, most); n > 0; n-- {
		if len(g.names) > 0 && rb(g.t) {
			e := pick(g.t, g.names)
			text, lit = text+g.text[e], lit+"&"+e+";"
			g.refs++
			continue
		}
		x := pick(g.t, []string{"a", "b/c", "?x=1", "&", "é", "-", "x.y", "'", "<", "\"", ";", "&amp;", "日本", "&a;", ">"})
		text, lit = text+x, lit+g.spell(x, entity)
	}
	return text, lit
}

// named draws a namespace name and its spelling
func (g *uriGen) named() (text, lit string) {
	start := pick(g.t, []string{"urn:", "http://h/", "u/"})
	for _, e := range g.names {
		if g.text[e] == start && rb(g.t) {
			text, lit = g.value(3, false)
			g.refs++
			return start + text, "&" + e + ";" + lit
		}
	}
	text, lit = g.value(3, false)
	return start + text, g.spell(start, false) + lit
}

func genURI(t *rapid.T) uriCase {
	g := &uriGen{t: t, text: map[string]string{}}
	c := uriCase{}
	var decls []string
	for _, e := range []string{"e1", "é", "u", "e11", "last"}[:ri(t, 1, 5)] {
		var text, lit string
		if rb(t) {
			text = pick(t, []string{"urn:", "http://h/", "u/"})
			lit = g.spell(text, true)
		} else {
			text, lit = g.value(3, true)
		}
		g.text[e] = text
		g.names = append(g.names, e)
		// an entity may be declared after the one that refers to it
		at := uni(t, len(decls)+1)
		decls = append(decls[:at:at], append([]string{"<!ENTITY " + e + ` "` + lit + `">`}, decls[at:]...)...)
	}
	g.refs = 0

	var b strings.Builder
	badAt := -1
	if chance(t, 1, 4) {
		badAt = ri(t, 0, 2)
	}
	used := 0
	var elem func(scope map[string]string, depth int) *N
	elem = func(scope map[string]string, depth int) *N {
		n := &N{K: KElem, Name: pick(t, []string{"a", "b"})}
		cur := map[string]string{}
		for k, v := range scope {
			cur[k] = v
		}
		var atts []string
		for _, p := range []string{"", "p", "q"} {
			if !rb(t) {
				continue
			}
			u, lit := g.named()
			if p == "" && chance(t, 1, 6) {
				u, lit = "", ""
			}
			cur[p] = u
			n.NS = append(n.NS, NSDecl{p, u})
			name := "xmlns"
			if p != "" {
				name += ":" + p
			}
			atts = append(atts, name+`="`+lit+`"`)
		}
		if used == badAt {
			x := pick(t, []string{"undeclared", "self", "left", "mutual", "empty", "reserved", "xml", "xml ok"})
			name := pick(t, []string{"xmlns", "xmlns:w"})
			val := "urn:&bad;x"
			switch x {
			case "self":
				decls = append(decls, `<!ENTITY bad "y&bad;">`)
			case "mutual":
				decls = append(decls, `<!ENTITY bad "y&bad2;">`, `<!ENTITY bad2 "&e1;&bad;">`)
			case "left":
				decls = append(decls, `<!ENTITY bad "`+pick(t, []string{"y&#60;z", "&#x3C;", "<a/>"})+`">`)
			case "empty":
				decls = append(decls, `<!ENTITY bad2 ""><!ENTITY bad "`+pick(t, []string{"", "&bad2;"})+`">`)
				name, val = "xmlns:w", "&bad;"
			case "reserved":
				decls = append(decls, `<!ENTITY bad "`+xmlnsNS+`"><!ENTITY bad3 "xmlns">`)
				name, val = "xmlns:w", pick(t, []string{"&bad;", "http://www.w3.org/2000/&bad3;/"})
			case "xml":
				decls = append(decls, `<!ENTITY bad "`+xmlNS+`">`)
				name, val = "xmlns:xml", pick(t, []string{"&bad;/", "&bad;&e1;x", "urn:&bad;"})
			case "xml ok":
				decls = append(decls, `<!ENTITY bad "XML/1998">`)
				name, val = "xmlns:xml", "http://www.w3.org/&bad;/namespace"
			}
			if x != "xml ok" {
				c.Bad = x
			}
			if name == "xmlns" && len(n.NS) > 0 && n.NS[0].Prefix == "" {
				name = "xmlns:w"
			}
			at := uni(t, len(atts)+1)
			atts = append(atts[:at:at], append([]string{name + `="` + val + `"`}, atts[at:]...)...)
		}
		used++
		var ps []string
		for _, p := range []string{"", "p", "q"} {
			if _, ok := cur[p]; ok || p == "" {
				ps = append(ps, p)
			}
		}
		p := pick(t, ps)
		if n.URI = cur[p]; p != "" {
			n.Name = p + ":" + n.Name
		}
		b.WriteString("<" + n.Name)
		for _, a := range atts {
			b.WriteString(" " + a)
		}
		b.WriteString(">")
		if depth < 3 {
			for i := ri(t, 0, 2); i > 0; i-- {
				n.Kids = append(n.Kids, elem(cur, depth+1))
			}
		}
		b.WriteString("</" + n.Name + ">")
		return n
	}
	c.Doc = &Doc{Root: elem(nil, 0)}
	c.Refs = g.refs
	c.Src = []byte("<!DOCTYPE r [" + strings.Join(decls, "\n") + "]>\n" + b.String())
	return c
}

// colonCase is a document with a name that may not have a colon
type colonCase struct {
	Src  []byte
	Name string
	What string
}

func genColon(t *rapid.T) colonCase {
	d := genDoc(t, GenOpt{MaxElems: 4})
	c := colonCase{Name: genNCName(t)}
	if chance(t, 1, 3) {
		c.Name = pick(t, []string{"xml-stylesheet", "xml-model", "php", "xml", "xmlns", "a", "é"})
	}
	rs := []rune(c.Name)
	at := pick(t, []int{0, len(rs), uni(t, len(rs)+1)})
	c.Name = string(rs[:at]) + ":" + string(rs[at:])
	if chance(t, 1, 8) {
		c.Name += ":"
	}
	const mark = "zzQQ"
	pi := &N{K: KPI, Name: mark, Text: pick(t, []string{"", "x", "href='a'"})}
	put := func(l []*N) []*N {
		i := uni(t, len(l)+1)
		return append(l[:i:i], append([]*N{pi}, l[i:]...)...)
	}
	dtd := func(x *Decl) {
		if d.DTD == nil {
			d.DTD = &DTD{Name: "a"}
		}
		l := d.DTD.Decls
		i := uni(t, len(l)+1)
		d.DTD.Decls = append(l[:i:i], append([]*Decl{x}, l[i:]...)...)
	}
	switch ri(t, 0, 6) {
	case 0:
		c.What = "a PI in front of the root"
		d.Before = put(d.Before)
	case 1:
		c.What = "a PI after the root"
		d.After = put(d.After)
	case 2, 3:
		c.What = "a PI in the content"
		d.Root.Kids = put(d.Root.Kids)
	case 4:
		c.What = "a PI in the subset"
		dtd(&Decl{K: "pi", Name: mark, Text: pi.Text})
	case 5:
		c.What = "an entity"
		dtd(&Decl{K: "ent", Name: mark, Text: "x"})
	default:
		c.What = "a parameter entity"
		dtd(&Decl{K: "pent", Name: mark, Text: "x"})
	}
	c.Src = spell(t, d)
	return c
}

func init() {
	reg("P07", "colons", 4000, 200000, genColon, func(c colonCase) Out {
		out := Out{NonTrivial: true, Sample: string(c.Src), Labels: []string{c.What}}
		with := func(name string) []byte { return bytes.Replace(c.Src, []byte("zzQQ"), []byte(name), -1) }
		if _, err := helium.Parse(with("x" + strings.Replace(c.Name, ":", "_", -1))); err != nil {
			return failf("rejected without a colon: %v: %s", err, show(c.Src))
		}
		out.Err = mustReject(with(c.Name), "a colon in the name "+c.Name+" of "+c.What)
		return out
	})

	reg("P07", "names by reference", 8000, 400000, genURI, func(c uriCase) Out {
		out := Out{NonTrivial: c.Refs > 0, Sample: string(c.Src)}
		if c.Bad != "" {
			out.NonTrivial = true
			out.Labels = append(out.Labels, "wrong: "+c.Bad)
			out.Err = mustReject(c.Src, "a namespace declaration with a wrong reference ("+c.Bad+")")
			return out
		}
		if out.Err = checkTree(c.Src, c.Doc, canonOpt{noDTD: true, noDecl: true}); out.Err != nil {
			return out
		}
		for _, fwd := range []bool{true, false} {
			if out.Err = nsEvents(c.Src, c.Doc.Root, fwd); out.Err != nil {
				return out
			}
		}
		doc, err := helium.Parse(c.Src)
		if err != nil {
			return failf("%v", err)
		}
		s, err := doc.XMLString()
		if err != nil {
			return failf("serialising: %v", err)
		}
		if err := checkTree([]byte(s), c.Doc, canonOpt{noDTD: true, noDecl: true}); err != nil {
			out.Err = errorf("after serialising: %v", err)
		}
		return out
	})
}
