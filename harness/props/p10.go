package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P10: attribute values are normalised and defaulted per their declarations.

type attCase struct {
	Src    []byte
	Doc    *Doc
	Labels []string
}

type attGen struct {
	elems   []string
	t       *rapid.T
	b       strings.Builder
	ents    []string // entities that may be used everywhere
	toks    []string // entities without blanks
	text    map[string]string
	types   map[string]*Decl // "elem att" -> binding declaration
	feat    map[string]bool
	left    int
	names   []string // of attributes
	most    int      // of them in a tag
	entUsed bool
}

// value writes a value and tells what it means
func (g *attGen) value(tok bool) string {
	t := g.t
	var raw, val strings.Builder
	qc := pick(t, []string{"'", "\""})
	wr := func(s string) { raw.WriteString(s) }
	last := func() byte {
		if s := raw.String(); s != "" {
			return s[len(s)-1]
		}
		return 0
	}
	n := ri(t, 0, 6)
	if chance(t, 1, 60) {
		n = ri(t, 20, 300)
	}
	for ; n > 0; n-- {
		switch ri(t, 0, 9) {
		case 0, 1:
			// literal white space
			k := ri(t, 1, 3)
			for ; k > 0; k-- {
				w := pick(t, []string{" ", " ", "\t", "\n", "\r\n", "\r"})
				if w[0] == '\n' && last() == '\r' {
					w = " " // it would be one line end
				}
				if w != " " {
					g.feat["literal tab or line end"] = true
				}
				wr(w)
				val.WriteByte(' ')
			}
		case 2:
			// a reference, often to white space
			r := genChar(t, true)
			if rb(t) {
				r = pick(t, []rune{' ', ' ', '\t', '\n', '\r'})
			}
			if tok && r != ' ' && isBlank(r) {
				g.feat["white space reference in a tokenised value"] = true
			}
			if isBlank(r) {
				g.feat["white space reference"] = true
			}
			s := &speller{t: t}
			s.charRef(r)
			wr(s.b.String())
			val.WriteRune(r)
		case 3:
			l := g.ents
			if tok {
				l = g.toks
			}
			if len(l) > 0 {
				e := pick(t, l)
				wr("&" + e + ";")
				v, err := expandValue("&"+e+";", g.text)
				if err != nil {
					panic(err)
				}
				val.WriteString(v)
				g.feat["entity"] = true
				g.entUsed = true
			}
		case 4:
			r := pick(t, []rune("<>&'\""))
			wr(predefOf[r])
			val.WriteRune(r)
		default:
			for k := ri(t, 1, 4); k > 0; k-- {
				r := genChar(t, false)
				switch {
				case isBlank(r):
					r = '_'
				case r == '<' || r == '&' || string(r) == qc:
					r = '-'
				}
				wr(string(r))
				val.WriteRune(r)
			}
		}
	}
	g.b.WriteString(qc + raw.String() + qc)
	if tok {
		v := collapse(val.String())
		if v != val.String() {
			g.feat["collapsed"] = true
		}
		return v
	}
	return val.String()
}

func (g *attGen) ws() {
	g.b.WriteString(pick(g.t, []string{" ", " ", "\n", "\t", "  "}))
}

var attElems = []string{"a", "b", "p:a", "p:b"}
var attNames = []string{"x", "y", "z", "p:x", "xml:lang", "xx"}

func (g *attGen) attlists(d *DTD) {
	t := g.t
	g.names, g.most = lookalikes(t, attNames), 4
	g.elems, g.names = lookalikePairs(t, g.elems, g.names)
	if chance(t, 1, 30) {
		g.most = 40
		for i := 0; i < g.most; i++ {
			g.names = append(g.names[:len(g.names):len(g.names)], fmt.Sprint("w", i))
		}
	}
	for n := ri(t, 0, 6); n > 0; n-- {
		switch ri(t, 0, 6) {
		case 0:
			name := pick(t, []string{"e1", "e2", "tok1", "tok2"})
			if _, ok := g.text[name]; ok {
				continue
			}
			// no white space: see the known finding
			tx := strings.Replace(genEntText(t, g.ents), "\r", "", -1)
			if strings.HasPrefix(name, "tok") {
				tx = pick(t, []string{"q", "x1", "&#65;", "é.", "&lt;", "a&amp;b", "w'\"w"})
				if len(g.toks) > 0 && rb(t) {
					tx += "&" + g.toks[0] + ";"
				}
				g.toks = append(g.toks, name)
			}
			g.text[name] = tx
			g.ents = append(g.ents, name)
			d.Decls = append(d.Decls, &Decl{K: "ent", Name: name, Text: tx})
			s := &speller{t: t}
			s.entValue(tx)
			g.b.WriteString("<!ENTITY " + name + " " + s.b.String() + ">")
		case 1:
			x := genElemDecl(t)
			x.Name = pick(t, g.elems)
			if g.types["elem "+x.Name] != nil {
				continue
			}
			g.types["elem "+x.Name] = x
			// any type but pure element content, where blanks are
			// reported in another way
			if x.Type == "CHILDREN" && rb(t) {
				x.Type, x.Model = "ANY", nil
			}
			d.Decls = append(d.Decls, x)
			s := &speller{t: t}
			s.decls([]*Decl{x})
			g.b.WriteString(s.b.String())
		default:
			el := pick(t, g.elems)
			g.b.WriteString("<!ATTLIST ")
			g.b.WriteString(el)
			for k := ri(t, 1, g.most-1); k > 0; k-- {
				c := genAttDecl(t, el, pick(t, g.names))
				g.ws()
				g.b.WriteString(c.Att)
				g.ws()
				if c.AttType == "ENUM" || c.AttType == "NOTATION" {
					if c.AttType == "NOTATION" {
						g.b.WriteString("NOTATION ")
					}
					g.b.WriteString("(" + strings.Join(c.Enum, "|") + ")")
				} else {
					g.b.WriteString(c.AttType)
				}
				g.ws()
				g.b.WriteString(c.Def)
				if c.Def == "" || c.Def == "#FIXED" {
					if c.Def != "" {
						g.ws()
					}
					g.entUsed = false
					c.Default = g.value(c.AttType != "CDATA")
					if g.entUsed {
						g.feat["entity in a default"] = true
					}
					g.feat["default"] = true
				}
				d.Decls = append(d.Decls, c)
				key := el + " " + c.Att
				if g.types[key] == nil {
					g.types[key] = c
				} else {
					g.feat["declared again"] = true
				}
			}
			g.b.WriteString(">")
		}
	}
}

func (g *attGen) elem(depth int) *N {
	t := g.t
	n := &N{K: KElem, Name: pick(t, g.elems)}
	g.b.WriteString("<" + n.Name)
	if depth == 0 {
		n.NS = []NSDecl{{"p", "urn:p"}}
		g.b.WriteString(" xmlns:p='urn:p'")
	}
	seen := map[string]bool{}
	for k := ri(t, 0, g.most); k > 0; k-- {
		a := pick(t, g.names)
		if seen[a] {
			continue
		}
		seen[a] = true
		g.ws()
		g.b.WriteString(a + pick(t, []string{"=", "=", " = ", "=\n"}))
		c := g.types[n.Name+" "+a]
		tok := c != nil && c.AttType != "CDATA"
		if c != nil && (c.Def == "" || c.Def == "#FIXED") {
			g.feat["default overridden"] = true
		}
		if tok {
			g.feat["tokenised"] = true
		}
		n.Attrs = append(n.Attrs, Attr{a, g.value(tok)})
	}
	for k, c := range g.types {
		if strings.HasPrefix(k, n.Name+" ") && !seen[c.Att] && (c.Def == "" || c.Def == "#FIXED") {
			g.feat["default used"] = true
		}
	}
	if depth > 3 || g.left <= 0 {
		g.b.WriteString("/>")
		return n
	}
	g.b.WriteString(">")
	for k := ri(t, 0, 3); k > 0 && g.left > 0; k-- {
		g.left--
		n.Kids = append(n.Kids, g.elem(depth+1))
	}
	g.b.WriteString("</" + n.Name + ">")
	return n
}

func genAttCase(t *rapid.T) attCase {
	c, _ := genAtts(t)
	return c
}

// genAtts also tells where the internal subset ends
func genAtts(t *rapid.T) (attCase, int) {
	end := 0
	g := &attGen{t: t, elems: lookalikes(t, attElems), text: map[string]string{}, types: map[string]*Decl{}, feat: map[string]bool{}, left: ri(t, 0, 6)}
	d := &Doc{}
	if !chance(t, 1, 8) {
		d.DTD = &DTD{Name: pick(t, g.elems)}
		g.b.WriteString("<!DOCTYPE " + d.DTD.Name + " [")
		g.attlists(d.DTD)
		end = g.b.Len()
		g.b.WriteString("]>")
	}
	d.Root = g.elem(0)
	if err := d.Root.resolve(nil); err != nil {
		panic(err)
	}
	return attCase{[]byte(g.b.String()), d, sortedKeys(g.feat)}, end
}

func checkAtts(c attCase) Out {
	out := Out{Labels: c.Labels, NonTrivial: len(c.Labels) >= 2, Sample: string(c.Src)}
	for _, fwd := range []bool{true, false} {
		if out.Err = checkStream(c.Src, c.Doc, fwd); out.Err != nil {
			return out
		}
	}
	if out.Err = checkTree(c.Src, c.Doc, canonOpt{noDTD: true}); out.Err != nil {
		return out
	}
	doc, err := helium.Parse(c.Src)
	if err != nil {
		return failf("%v", err)
	}
	// the same from the serialised document
	s, err := doc.XMLString()
	if err != nil {
		return failf("serialising: %v\ndocument: %s", err, show(c.Src))
	}
	if err := checkTree([]byte(s), c.Doc, canonOpt{noDTD: true, noDecl: true}); err != nil {
		out.Err = errorf("after serialising: %v\nfirst document: %s", err, show(c.Src))
		return out
	}
	if err := checkStream([]byte(s), boundDoc(c.Doc), true); err != nil {
		out.Err = errorf("after serialising: %v\nfirst document: %s", err, show(c.Src))
	}
	return out
}

// boundDoc leaves the declarations out that do not bind
func boundDoc(d *Doc) *Doc {
	if d.DTD == nil {
		return d
	}
	c := *d
	c.DTD = &DTD{d.DTD.Name, bound(d.DTD.Decls)}
	return &c
}

func init() {
	p := prop("P10", "at least two of: literal tab or line end, white space reference, entity, tokenised value, collapsed value, default, default used, default overridden, repeated declaration; a reference (entities)")
	p.Known = append(p.Known, Finding{"white space in the text of an entity is not normalised in attribute values", func() bool {
		doc, err := helium.Parse([]byte("<!DOCTYPE a [<!ENTITY e 'x&#10;y'>]><a b='&e;'/>"))
		if err != nil {
			return true
		}
		n := doc.LastChild()
		e, ok := n.(*helium.Element)
		return !ok || len(e.Attributes()) != 1 || e.Attributes()[0].Value() != "x y"
	}})
	reg("P10", "attributes", 30000, 1500000, genAttCase, checkAtts)

	// the value depends only on what binds: adding declarations for other
	// elements, other attributes or again changes nothing
	type addCase struct {
		A, B []byte
	}
	reg("P10", "unrelated", 10000, 500000,
		func(t *rapid.T) addCase {
			c, end := genAtts(t)
			for i := 0; i < 10 && c.Doc.DTD == nil; i++ {
				c, end = genAtts(t)
			}
			if c.Doc.DTD == nil {
				return addCase{c.Src, c.Src}
			}
			var b strings.Builder
			for n := ri(t, 1, 4); n > 0; n-- {
				d := genAttDecl(t, pick(t, []string{"c", "q:a", "A", "aa", "p", "a"}), pick(t, append([]string{"dclq", "X"}, attNames...)))
				if d.Name == "a" || strings.Contains(string(c.Src), d.Name) {
					// (may be for an element of the document)
					d.Att = "un" + local(d.Att)
					d.Def = "#IMPLIED"
				}
				s := &speller{t: t}
				s.decls([]*Decl{d})
				b.WriteString(s.b.String())
			}
			i := strings.Index(string(c.Src), "[") + 1
			if rb(t) {
				i = end
			}
			return addCase{c.Src, insertAt(c.Src, i, b.String())}
		},
		func(c addCase) Out {
			out := Out{NonTrivial: string(c.A) != string(c.B), Sample: string(c.B)}
			var l [2]string
			for i, src := range [][]byte{c.A, c.B} {
				r := newRecorder(len(src)%2 == 0)
				if _, err := parseRec(src, r); err != nil {
					return failf("rejected: %v: %s", err, show(src))
				}
				for _, e := range r.evs {
					if e.K == "start" {
						l[i] += fmt.Sprintln(e)
					}
				}
			}
			if l[0] != l[1] {
				out.Err = errorf("declarations for something else change the attributes: %s\nfirst:  %s\nsecond: %s", diffLines(l[0], l[1]), show(c.A), show(c.B))
			}
			return out
		})
}
