package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P11: character and entity references mean what was declared.

// ---- character references ----

type blockCase struct {
	Block int // 256 code points
	Form  int
	Zeros int
	Place int
}

var crPlaces = []string{"content", "attribute", "entity", "default", "tokenised", "entity in attribute"}

func crForm(form, zeros int, r uint64) string {
	z := strings.Repeat("0", zeros)
	switch form {
	case 0:
		return fmt.Sprintf("&#%s%d;", z, r)
	case 1:
		return fmt.Sprintf("&#x%s%x;", z, r)
	case 2:
		return fmt.Sprintf("&#x%s%X;", z, r)
	}
	s := []byte(fmt.Sprintf("%X", r))
	for i := 0; i < len(s); i += 2 {
		s[i] |= 0x20 // digits stay as they are
	}
	return fmt.Sprintf("&#x%s%s;", z, s)
}

// placeRef makes a document with the references l in the given place
func placeRef(place string, l []string) []byte {
	var b strings.Builder
	switch place {
	case "content":
		b.WriteString("<r>")
		for _, s := range l {
			b.WriteString("<e>" + s + "</e>")
		}
	case "attribute":
		b.WriteString("<r>")
		for _, s := range l {
			b.WriteString("<e v='" + s + "'/>")
		}
	case "entity":
		b.WriteString("<!DOCTYPE r [")
		for i, s := range l {
			fmt.Fprintf(&b, "<!ENTITY n%d '%s'>", i, s)
		}
		b.WriteString("]><r>")
	case "entity in attribute":
		b.WriteString("<!DOCTYPE r [")
		for i, s := range l {
			fmt.Fprintf(&b, "<!ENTITY n%d '%s'>", i, strings.Replace(s, "&", "&#38;", 1))
		}
		b.WriteString("]><r>")
		for i := range l {
			fmt.Fprintf(&b, "<e v='&n%d;'/>", i)
		}
	case "default":
		b.WriteString("<!DOCTYPE r [")
		for i, s := range l {
			fmt.Fprintf(&b, "<!ATTLIST r a%d CDATA '%s'>", i, s)
		}
		b.WriteString("]><r>")
	case "tokenised":
		b.WriteString("<!DOCTYPE r [<!ATTLIST e v NMTOKEN #IMPLIED>]><r>")
		for _, s := range l {
			b.WriteString("<e v='" + s + "'/>")
		}
	}
	b.WriteString("</r>")
	return []byte(b.String())
}

// gotRefs reads what placeRef has made
func gotRefs(place string, src []byte, n int) ([]string, error) {
	r := newRecorder(true)
	doc, err := parseRec(src, r)
	if err != nil {
		return nil, err
	}
	var l []string
	switch place {
	case "entity":
		for i := 0; i < n; i++ {
			e, ok := doc.IntSubset().LookupEntity(fmt.Sprintf("n%d", i))
			if !ok {
				return nil, errorf("entity n%d is missing", i)
			}
			if s := r.ents[fmt.Sprintf("n%d", i)]; s != string(e.Content()) {
				return nil, errorf("entity n%d is reported as %q but recorded as %q", i, s, e.Content())
			}
			l = append(l, string(e.Content()))
		}
	case "default":
		for _, ev := range r.evs {
			if ev.K == "start" {
				for _, a := range ev.Attrs {
					v, err := expandValue(a.Value, r.ents)
					if err != nil {
						return nil, err
					}
					l = append(l, v)
				}
			}
		}
	default:
		m, err := fromDOM(doc, false)
		if err != nil {
			return nil, err
		}
		for _, k := range m.Root.Kids {
			if place == "content" {
				s := ""
				for _, x := range norm(k.Kids) {
					s += x.K + x.Text
				}
				l = append(l, strings.TrimPrefix(s, KText))
			} else if len(k.Attrs) == 1 {
				l = append(l, k.Attrs[0].Value)
			}
		}
		i := 0
		cur := ""
		for _, ev := range r.evs {
			switch ev.K {
			case "start":
				cur = ""
				if place != "content" && len(ev.Attrs) == 1 {
					v, err := expandValue(ev.Attrs[0].Value, r.ents)
					if err != nil {
						return nil, err
					}
					cur = v
				}
			case "chars", "cdata", "ignorable":
				cur += ev.Data
			case "end":
				if i < len(l) && cur != l[i] && ev.Name == "e" {
					return nil, errorf("reported as %q, but %q in the tree", cur, l[i])
				}
				i++
			}
		}
	}
	return l, nil
}

func checkBlock(c blockCase) Out {
	place := crPlaces[c.Place%len(crPlaces)]
	var good []rune
	var refs []string
	for i := 0; i < 256; i++ {
		r := rune(c.Block*256 + i)
		if r == 0xFFFD {
			continue // recorded finding
		}
		s := crForm(c.Form%4, c.Zeros, uint64(r))
		if isChar(r) {
			good = append(good, r)
			refs = append(refs, s)
		} else if i%16 == c.Form%16 || r < 0x20 || r&0xFFFE == 0xFFFE {
			src := placeRef(place, []string{s})
			if _, err := helium.Parse(src); err == nil {
				return failf("%s to an illegal character is accepted in %s: %s", s, place, show(src))
			}
		}
	}
	out := Out{NonTrivial: true, Labels: []string{place}, Sample: fmt.Sprintf("U+%04X… as %s in %s", c.Block*256, crForm(c.Form%4, c.Zeros, uint64(c.Block*256)), place)}
	if len(good) == 0 {
		return out
	}
	src := placeRef(place, refs)
	l, err := gotRefs(place, src, len(refs))
	if err != nil {
		return failf("references in %s: %v\ndocument: %s", place, err, show(src))
	}
	if len(l) != len(good) {
		return failf("%d values instead of %d\ndocument: %s", len(l), len(good), show(src))
	}
	for i, r := range good {
		want := string(r)
		if place == "tokenised" && r == ' ' {
			want = ""
		}
		if l[i] != want {
			return failf("%s in %s is %q instead of %q", refs[i], place, l[i], want)
		}
	}
	return out
}

type malRef struct {
	Ref   string
	Place int
}

// genMalRef draws a reference that is malformed or to something illegal
func genMalRef(t *rapid.T) malRef {
	c := malRef{Place: uni(t, len(crPlaces)-1)}
	good := pick(t, []rune{'A', 'z', 0xE9, 0x4E2D, 0x1F600, ' '})
	switch ri(t, 0, 5) {
	case 0:
		c.Ref = pick(t, []string{"&#;", "&#x;", "&#X41;", "&#-65;", "&#+65;", "&#6 5;", "&# 65;", "&#0x41;", "&#1_0;", "&#4A;", "&#x4G;", "&#\u0663;", "& #65;", "&#xx41;", "&#x 41;", "&#65.;", "&#x4_1;", "&##65;", "&#65:", "&#\uff11;", "&#x-41;", "&#\n65;", "&#x\u0301;", "&#6e1;", "&#'65';", "&#65,;"})
	case 1:
		// unterminated
		c.Ref = strings.TrimSuffix(crForm(ri(t, 0, 3), 0, uint64(good)), ";") + pick(t, []string{"", " ", "&#65;", ",", "."})
	case 2:
		// numbers that are too large, also those whose last bits are fine
		base := pick(t, []string{"100000000", "10000000000000000", "110000", "200000", "80000000", "FFFFFFFFFFFFFFFF", "7FFFFFFF", "FFFFFFFF", "1000000000000", "100000000000000000000000000000000"})
		if len(base) > 6 && rb(t) && strings.HasSuffix(base, "0000") {
			base = base[:len(base)-2] + fmt.Sprintf("%02x", 'A')
		}
		c.Ref = "&#x" + base + ";"
	case 3:
		base := pick(t, []string{"1114112", "4294967361", "18446744073709551681", "9223372036854775873", "99999999999999999999999", "2147483713", "340282366920938463463374607431768211521", "65601000000000000000000"})
		c.Ref = "&#" + base + ";"
	case 4:
		c.Ref = crForm(ri(t, 0, 3), ri(t, 0, 4), uint64(pick(t, []int{0, 1, 8, 0xB, 0xC, 0xE, 0x1F, 0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFE, 0xFFFF, 0x110000, 0x1FFFFF})))
	default:
		c.Ref = pick(t, []string{"&", "& ", "&;", "& ;", "&nope;", "&amp", "&lt", "&am p;", "&amp :", "&AMP;", "&Lt;", "&-;", "&1;", "&a", "&.b;", "&lt:;", "&quote;", "&apo;", "&nbsp;", "&%;", "&\u00b7;", "&\u0301a;"})
		if pl := crPlaces[c.Place]; pl == "entity" {
			// references to entities are not resolved there
			c.Ref = pick(t, []string{"&", "& ", "&;", "& ;", "&am p;", "&-;", "&1;", "&amp", "&%;"})
		}
	}
	return c
}

// ---- entities ----

// entCase is a document with entities that may contain markup. Src is
// written from the model.
type entCase struct {
	Src    []byte
	Names  []string // of the entities declared
	Texts  [][]*N
	Doc    *Doc
	Labels []string
}

type entGen struct {
	t     *rapid.T
	n     int
	texts [][]*N
	flat  []bool // no markup, may be used in attributes
}

func (g *entGen) attr(max int) (raw, val string) {
	t := g.t
	var b, v strings.Builder
	for k := ri(t, 0, 3); k > 0; k-- {
		i := -1
		if max > 0 && rb(t) {
			i = uni(t, max)
		}
		if i >= 0 && g.flat[i] {
			b.WriteString("&" + entName(i) + ";")
			v.WriteString(g.flatText(i))
			continue
		}
		s := pick(t, []string{"x", "&lt;", "&amp;", "&#65;", "é", "&quot;", "&#38;"})
		b.WriteString(s)
		x, err := expandValue(s, nil)
		if err != nil {
			panic(err)
		}
		v.WriteString(x)
	}
	return b.String(), v.String()
}

func (g *entGen) flatText(i int) string {
	s := ""
	for _, n := range g.texts[i] {
		if n.K == KRef {
			var j int
			fmt.Sscanf(n.Name, "n%d", &j)
			s += g.flatText(j)
		} else {
			s += n.Text
		}
	}
	return s
}

// nodes draws content that may refer to the entities below max
func (g *entGen) nodes(max, depth, count int, flat bool) (l []*N) {
	t := g.t
	for k := ri(t, 0, count); k > 0; k-- {
		switch c := ri(t, 0, 9); {
		case c <= 3 && max > 0:
			i := uni(t, max)
			if flat && !g.flat[i] {
				continue
			}
			l = append(l, &N{K: KRef, Name: entName(i)})
		case c <= 5 || flat:
			s := genText(t, 1, 5, true)
			if flat {
				// see P10
				s = strings.Map(func(r rune) rune {
					if isBlank(r) {
						return '_'
					}
					return r
				}, s)
			}
			l = append(l, &N{K: KText, Text: s})
		case c == 6:
			l = append(l, (&docGen{t: t}).comment())
		case c == 7:
			l = append(l, (&docGen{t: t}).pi())
		default:
			if depth > 3 {
				continue
			}
			e := &N{K: KElem, Name: pick(t, []string{"b", "c", "d", "é"})}
			for _, a := range []string{"k", "m"} {
				if chance(t, 1, 3) {
					raw, val := g.attr(max)
					e.Attrs = append(e.Attrs, Attr{a, val})
					e.NS = append(e.NS, NSDecl{a, raw}) // kept for writing only
				}
			}
			e.Kids = g.nodes(max, depth+1, 3, false)
			l = append(l, e)
		}
	}
	return norm(l)
}

// write writes content
func (g *entGen) write(s *speller, l []*N) {
	for _, n := range l {
		if n.K != KElem {
			s.node(n)
			continue
		}
		s.w("<" + n.Name)
		for _, r := range n.NS {
			q := s.quote()
			s.ws(1)
			s.w(r.Prefix)
			s.eq()
			s.w(q + r.URI + q)
		}
		s.ws(0)
		if len(n.Kids) == 0 && rb(g.t) {
			s.w("/>")
			continue
		}
		s.w(">")
		g.write(s, n.Kids)
		s.w("</" + n.Name)
		s.ws(0)
		s.w(">")
	}
}

func dropRaw(l []*N) {
	for _, n := range l {
		n.NS = nil
		dropRaw(n.Kids)
	}
}

func genEntCase(t *rapid.T) entCase {
	g := &entGen{t: t, n: ri(t, 1, 6)}
	if chance(t, 1, 20) {
		g.n = ri(t, 7, 25)
	}
	c := entCase{Doc: &Doc{DTD: &DTD{Name: "r"}}}
	feat := map[string]bool{}
	var lits []string
	for i := 0; i < g.n; i++ {
		flat := chance(t, 2, 5)
		g.texts = append(g.texts, g.nodes(i, 0, 3, flat))
		g.flat = append(g.flat, flat)
		s := newSpeller(t)
		s.noCR, s.noCDATA = true, flat
		g.write(s, g.texts[i])
		text := s.b.String()
		if strings.Contains(text, "<") {
			feat["markup"] = true
		}
		for _, n := range g.texts[i] {
			if n.K == KRef {
				feat["nested"] = true
			}
		}
		c.Doc.DTD.Decls = append(c.Doc.DTD.Decls, &Decl{K: "ent", Name: entName(i), Text: text})
		e := newSpeller(t)
		e.entValue(text)
		lits = append(lits, e.b.String())
		c.Names = append(c.Names, entName(i))
	}
	root := &N{K: KElem, Name: "r"}
	root.Kids = g.nodes(g.n, 0, 5, false)
	raw, val := g.attr(g.n)
	root.Attrs = []Attr{{"v", val}}
	root.NS = []NSDecl{{"v", raw}}
	if strings.Contains(raw, "&n") {
		feat["in attribute"] = true
	}
	// the order of the declarations does not matter
	order := make([]int, g.n)
	for i := range order {
		order[i] = i
	}
	if rb(t) {
		for i := len(order) - 1; i > 0; i-- {
			j := uni(t, i+1)
			order[i], order[j] = order[j], order[i]
		}
	}
	s := newSpeller(t)
	s.w("<!DOCTYPE r [")
	var decls []*Decl
	for _, i := range order {
		s.w("<!ENTITY " + entName(i) + " ")
		s.w(lits[i])
		s.w(">")
		decls = append(decls, c.Doc.DTD.Decls[i])
	}
	c.Doc.DTD.Decls = decls
	s.w("]>")
	g.write(s, []*N{root})
	c.Src = []byte(s.b.String())
	dropRaw([]*N{root})
	for _, l := range g.texts {
		dropRaw(l)
	}
	root.each(func(n *N, d int) {
		if n.K == KRef {
			feat["in content"] = true
		}
	})
	c.Doc.Root = root
	c.Texts = g.texts
	c.Labels = sortedKeys(feat)
	return c
}

// entEvents are the events of the content of entities
func (c *entCase) events() []Ev {
	x := &expected{}
	var nodes func(l []*N)
	nodes = func(l []*N) {
		for _, n := range l {
			switch n.K {
			case KRef:
				var j int
				fmt.Sscanf(n.Name, "n%d", &j)
				nodes(c.Texts[j])
				x.emit(Ev{K: "ref", Name: n.Name})
			case KElem:
				e := Ev{K: "start", Name: n.Name}
				for _, a := range n.Attrs {
					e.Attrs = append(e.Attrs, EvAttr{a.Name, a.Value, false})
				}
				x.emit(e)
				nodes(n.Kids)
				x.emit(Ev{K: "end", Name: n.Name})
			default:
				x.node(n)
			}
		}
	}
	nodes([]*N{c.Doc.Root})
	return x.evs
}

func (c *entCase) size() int {
	memo := map[string]int{}
	var count func(l []*N) int
	count = func(l []*N) int {
		n := 0
		for _, k := range l {
			n++
			if k.K == KRef {
				v, ok := memo[k.Name]
				if !ok {
					var j int
					fmt.Sscanf(k.Name, "n%d", &j)
					v = count(c.Texts[j])
					memo[k.Name] = v
				}
				n += v
			}
			n += count(k.Kids)
			if n > 1<<20 {
				return 1 << 20
			}
		}
		return n
	}
	return count([]*N{c.Doc.Root})
}

func checkEnts(c entCase) Out {
	out := Out{Labels: c.Labels, NonTrivial: len(c.Labels) >= 2, Sample: string(c.Src)}
	if c.size() > 20000 {
		out.NonTrivial = false
		return out
	}
	want := evLines(c.events())
	for _, fwd := range []bool{true, false} {
		r := newRecorder(fwd)
		if _, err := parseRec(c.Src, r); err != nil {
			return failf("rejected: %v\ndocument: %s", err, show(c.Src))
		}
		l, err := gotEvents(r)
		if err != nil {
			return failf("%v\ndocument: %s", err, show(c.Src))
		}
		var got []Ev
		for _, e := range l {
			switch e.K {
			case "startdoc", "intsubset", "decl", "enddoc":
				continue
			}
			got = append(got, e)
		}
		if g := evLines(got); g != want {
			return failf("wrong events: %s\ndocument: %s", diffLines(want, g), show(c.Src))
		}
	}
	// in the tree there is the reference, and what it stands for below the
	// entity
	doc, err := helium.Parse(c.Src)
	if err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(c.Src))
	}
	m, err := fromDOM(doc, false)
	if err != nil {
		return failf("%v\ndocument: %s", err, show(c.Src))
	}
	if a, b := (&Doc{Root: c.Doc.Root}).canon(canonOpt{noDecl: true}), (&Doc{Root: m.Root}).canon(canonOpt{noDecl: true}); a != b {
		return failf("wrong tree: %s\ndocument: %s", diffLines(a, b), show(c.Src))
	}
	for i, name := range c.Names {
		e, ok := doc.GetEntity(name)
		if !ok {
			return failf("entity %s is missing: %s", name, show(c.Src))
		}
		text := ""
		for _, d := range c.Doc.DTD.Decls {
			if d.Name == name {
				text = d.Text
			}
		}
		if string(e.Content()) != text {
			return failf("entity %s is %q instead of %q\ndocument: %s", name, e.Content(), text, show(c.Src))
		}
		if e.FirstChild() == nil {
			continue // not referred to, or empty
		}
		kids, err := domKids(e, 0)
		if err != nil {
			return failf("entity %s: %v\ndocument: %s", name, err, show(c.Src))
		}
		x, y := &N{K: KElem, Name: name, Kids: c.Texts[i]}, &N{K: KElem, Name: name, Kids: kids}
		if a, b := (&Doc{Root: x}).canon(canonOpt{noDecl: true}), (&Doc{Root: y}).canon(canonOpt{noDecl: true}); a != b {
			return failf("wrong tree of entity %s: %s\ndocument: %s", name, diffLines(a, b), show(c.Src))
		}
	}
	err = helium.Walk(doc, func(n helium.Node) error {
		if n.Type() == helium.EntityRefNode {
			if e, ok := doc.GetEntity(n.Name()); !ok || n.FirstChild() != helium.Node(e) || n.LastChild() != helium.Node(e) {
				return errorf("the reference %s does not lead to its entity", n.Name())
			}
		}
		return nil
	})
	if err != nil {
		return failf("%v\ndocument: %s", err, show(c.Src))
	}
	return out
}

// ---- references that are wrong ----

type badEnt struct {
	Src []byte
	Why string
}

func genBadEnt(t *rapid.T) badEnt {
	// a chain of entities, the last of which has the fault
	k := ri(t, 0, 4)
	if chance(t, 1, 10) {
		k = ri(t, 5, 20)
	}
	use := ri(t, 0, 3) // content, attribute, default value, element in content
	var fault, why string
	mark := use == 0 || use == 3 // only wrong, or only possible, in content
	pre, post := pick(t, []string{"", "x", "&amp;"}), pick(t, []string{"", "y", "&lt;"})
	switch c := ri(t, 0, 6); {
	case c == 0:
		fault, why = "&"+entName(ri(t, 0, k))+";", "an entity refers to itself"
	case c == 1:
		fault, why = "&nope;", "reference to an undeclared entity"
	case c == 2:
		fault, why = pick(t, []string{"&#38;", "&#38; ", "&#38;amp", "&#38;#65", "&#38;;", "&#38;1;"}), "malformed reference in an entity"
	case c == 3 && !mark:
		fault, why = pick(t, []string{"&#60;", "<", "<b/>", "<!-- x -->", "&#60;b>"}), "'<' in an attribute value, through an entity"
	case c == 4 && mark:
		fault, why = pick(t, []string{"<b>", "</b>", "<b></c>", "<b><c></b></c>", "<", "<b", "<b x=>", "<b x='1' x='2'/>", "<!-- ", "<!-- -- -->", "<![CDATA[", "]]>", "<?p", "<b x='<'/>", "<!DOCTYPE r>", "</r><r>", "<b x='&nope;'/>", "<?xml version='1.0'?>", "<b>&nope;</b>", "<!x>", "<1/>", "&#60;b>", "&#60;", "<b>&" + entName(ri(t, 0, k)) + ";</b>", "<b x='&" + entName(ri(t, 0, k)) + ";'/>"}), "malformed markup in an entity"
	case c == 5:
		fault, why = pick(t, []string{"&#38;#0;", "&#38;#xD800;", "&#38;#xFFFE;", "&#38;#1;", "&#38;#x110000;", "&#38;#4294967361;"}), "reference to an illegal character in an entity"
	default:
		fault, why = "&x&nope;", "reference to an undeclared entity"
		fault = "&nope;" + fault[2:]
	}
	var ents []string
	for i := 0; i < k; i++ {
		ents = append(ents, fmt.Sprintf("<!ENTITY %s \"%s&%s;%s\">", entName(i), pre, entName(i+1), post))
	}
	ents = append(ents, fmt.Sprintf("<!ENTITY %s \"%s%s%s\">", entName(k), pre, fault, post))
	if rb(t) && use != 2 {
		for i, j := 0, len(ents)-1; i < j; i, j = i+1, j-1 {
			ents[i], ents[j] = ents[j], ents[i]
		}
	}
	if rb(t) {
		// the first declaration binds
		ents = append(ents, "<!ENTITY "+entName(k)+" 'fine'>")
	}
	body := "<r/>"
	ref := "&" + entName(0) + ";"
	switch use {
	case 0:
		body = "<r>" + pre + ref + post + "</r>"
	case 1:
		body = "<r v='" + pre + ref + post + "'/>"
	case 2:
		ents = append(ents, "<!ATTLIST r d CDATA \""+ref+"\">")
	default:
		body = "<r><s>" + ref + "</s><t/></r>"
	}
	return badEnt{[]byte("<!DOCTYPE r [" + strings.Join(ents, "") + "]>" + body), why}
}

// size is what the entities used would expand to, if references counted
// everywhere
func (c *entGraph) size() int {
	memo := map[string]int{}
	var count func(s string) int
	count = func(s string) int {
		n := len(s)
		for i := range c.Texts {
			name := entName(i)
			k := strings.Count(s, "&"+name+";")
			if k == 0 {
				continue
			}
			v, ok := memo[name]
			if !ok {
				memo[name] = 0
				v = count(c.Texts[i])
				memo[name] = v
			}
			n += k * v
			if n > 1<<20 {
				return 1 << 20
			}
		}
		return n
	}
	return count(c.Use) + count(c.Att) + count(c.Def)
}

func init() {
	prop("P11", "every block of character references and malformed reference; entities: at least two of content, attribute, nesting, markup; graphs: at least two entities, one of them used")

	reg("P11", "charref blocks", 6000, 120000,
		func(t *rapid.T) blockCase {
			b := uni(t, 0x1100)
			if chance(t, 1, 2) {
				b = pick(t, []int{0, 0, 0, 1, 2, 3, 4, 5, 7, 8, 0xF, 0x10, 0x20, 0x30, 0xD7, 0xD8, 0xDB, 0xDC, 0xDF, 0xE0, 0xFD, 0xFE, 0xFF, 0x100, 0x101, 0x1FF, 0x10FF, 0xF0F})
			}
			z := 0
			if chance(t, 1, 3) {
				z = ri(t, 1, 12)
			}
			return blockCase{b, uni(t, 4), z, uni(t, len(crPlaces))}
		}, checkBlock)

	reg("P11", "malformed", 12000, 300000, genMalRef, func(c malRef) Out {
		place := crPlaces[c.Place]
		src := placeRef(place, []string{c.Ref})
		out := Out{NonTrivial: true, Labels: []string{place}, Sample: string(src)}
		if r := refParse(src); r.V != vBad {
			out.Labels = append(out.Labels, "not bad")
			return out
		}
		out.Err = mustReject(src, "reference "+q(c.Ref)+" in "+place)
		return out
	})

	reg("P11", "entities", 20000, 1000000, genEntCase, checkEnts)

	reg("P11", "bad entities", 12000, 400000, genBadEnt, func(c badEnt) Out {
		out := Out{NonTrivial: true, Labels: []string{c.Why}, Sample: string(c.Src)}
		if r := refParse(c.Src); r.V == vOK {
			return failf("the reference parser accepts %s", show(c.Src))
		}
		out.Err = mustReject(c.Src, c.Why)
		return out
	})

	// arbitrary sets of entities: accepted exactly if they are in order
	reg("P11", "graphs", 15000, 700000, genEntGraph, func(c entGraph) Out {
		src := c.source()
		r := refParse(src)
		out := Out{Labels: []string{r.V.String()}, Sample: string(src)}
		if r.V == vUnsure || c.size() > 50000 {
			return out
		}
		out.NonTrivial = len(c.Texts) > 1 && c.Use+c.Att+c.Def != ""
		if r.V == vBad {
			out.Err = mustReject(src, r.Msg)
			return out
		}
		out.Err = checkTree(src, r.Doc, canonOpt{noDTD: true})
		return out
	})

	// the predefined entities may be declared, to what they mean
	type predefCase struct{ Src []byte }
	reg("P11", "predefined", 4000, 100000,
		func(t *rapid.T) predefCase {
			decl := map[string][]string{
				"lt":   {"&#38;#60;", "&#38;#x3C;", "&#x26;#60;"},
				"amp":  {"&#38;#38;", "&#38;#x26;", "&#x26;#38;"},
				"gt":   {">", "&#62;", "&#38;#62;"},
				"apos": {"&#39;", "&#38;#39;", "&#x27;"},
				"quot": {"&#34;", "&#38;#34;", "&#x22;"},
			}
			var b strings.Builder
			b.WriteString("<!DOCTYPE r [")
			for _, n := range []string{"lt", "amp", "gt", "apos", "quot"} {
				if rb(t) {
					b.WriteString("<!ENTITY " + n + " \"" + pick(t, decl[n]) + "\">")
				}
			}
			b.WriteString("<!ENTITY e '[&lt;&gt;&amp;&apos;&quot;]'>]><r v='&lt;&gt;&amp;&apos;&quot;&e;'><x>&lt;&gt;&amp;&apos;&quot;</x>&e;</r>")
			return predefCase{[]byte(b.String())}
		},
		func(c predefCase) Out {
			out := Out{NonTrivial: true, Sample: string(c.Src)}
			for _, fwd := range []bool{true, false} {
				r := newRecorder(fwd)
				if _, err := parseRec(c.Src, r); err != nil {
					return failf("rejected: %v\ndocument: %s", err, show(c.Src))
				}
				text, att := "", ""
				for _, e := range r.evs {
					if e.isText() {
						text += e.Data
					}
					if e.K == "start" && e.Name == "r" {
						v, err := expandValue(e.Attrs[0].Value, r.ents)
						if err != nil {
							return failf("%v", err)
						}
						att = v
					}
				}
				if text != "<>&'\"[<>&'\"]" || att != "<>&'\"[<>&'\"]" {
					return failf("the text is %q and the attribute %q\ndocument: %s", text, att, show(c.Src))
				}
			}
			return out
		})
}
