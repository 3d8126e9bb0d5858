package props

import (
	"bytes"
	"fmt"
	"reflect"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P05: documents built through the API survive serialisation.

// tape is a source of choices that is a part of the case
type tape struct {
	b []byte
	i int
}

func (p *tape) n(max int) int {
	if len(p.b) == 0 || max <= 1 {
		return 0
	}
	v := int(p.b[p.i%len(p.b)])
	p.i++
	return v % max
}

type buildCase struct {
	Doc  *Doc
	Tape []byte
}

func genTape(t *rapid.T, max int) []byte {
	n := ri(t, 0, max)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(uni(t, 256))
	}
	return b
}

func standalone(s string) helium.DocumentStandaloneType {
	switch s {
	case "yes":
		return helium.StandaloneExplicitYes
	case "no":
		return helium.StandaloneExplicitNo
	}
	return helium.StandaloneImplicitNo
}

type builder struct {
	doc   *helium.Document
	t     *tape
	steps int
}

// refForm writes an attribute value in the form SetAttribute takes, where
// '&' starts a reference
func (b *builder) refForm(s string) string {
	var o strings.Builder
	for _, r := range s {
		switch k := b.t.n(12); {
		case r == '&' && k < 4:
			o.WriteString("&amp;")
		case r == '&' && k < 8:
			o.WriteString("&#38;")
		case r == '&':
			o.WriteString("&#x26;")
		case r == '<' && k < 4:
			o.WriteString("&lt;")
		case r == '>' && k < 2:
			o.WriteString("&gt;")
		case r == '"' && k < 3:
			o.WriteString("&quot;")
		case r == '\'' && k < 3:
			o.WriteString("&apos;")
		case k == 11:
			fmt.Fprintf(&o, "&#x%s%X;", b.zeros(), r)
		case k == 10:
			fmt.Fprintf(&o, "&#%s%d;", b.zeros(), r)
		default:
			o.WriteRune(r)
		}
	}
	return o.String()
}

// zeros are those in front of a number
func (b *builder) zeros() string {
	switch k := b.t.n(40); {
	case k == 39:
		return strings.Repeat("0", 4+b.t.n(100))
	case k > 30:
		return strings.Repeat("0", k-30)
	}
	return ""
}

func (b *builder) leaf(n *N) (helium.Node, error) {
	b.steps++
	switch n.K {
	case KText:
		return b.doc.CreateText([]byte(n.Text))
	case KComm:
		if b.t.n(3) == 0 && len(n.Text) > 1 {
			c, err := b.doc.CreateComment([]byte(n.Text[:1]))
			if err != nil {
				return nil, err
			}
			return c, c.AddContent([]byte(n.Text[1:]))
		}
		return b.doc.CreateComment([]byte(n.Text))
	case KPI:
		return b.doc.CreatePI(n.Name, n.Text)
	case KRef:
		return b.doc.CreateReference(n.Name)
	}
	return nil, fmt.Errorf("no leaf: %s", n.K)
}

// append adds child to parent, in one of the ways there are
func (b *builder) append(parent helium.Node, child helium.Node) error {
	b.steps++
	last := parent.LastChild()
	if last == nil || b.t.n(3) > 0 {
		return parent.AddChild(child)
	}
	if b.t.n(2) == 0 {
		return last.AddSibling(child)
	}
	return parent.FirstChild().AddSibling(child)
}

func (b *builder) fill(e *helium.Element, n *N) error {
	nsLate := b.t.n(4) == 0
	ns := func() error {
		for _, d := range n.NS {
			b.steps++
			if err := e.SetNamespace(d.Prefix, d.URI); err != nil {
				return err
			}
		}
		if n.URI != "" || prefixOf(n.Name) != "" {
			return e.SetNamespace(prefixOf(n.Name), n.URI, true)
		}
		return nil
	}
	if !nsLate {
		if err := ns(); err != nil {
			return err
		}
	}
	for _, a := range n.Attrs {
		b.steps++
		rs := []rune(a.Value)
		rest := ""
		if len(rs) > 1 && b.t.n(5) == 0 {
			// the rest of the value is added as text
			m := b.t.n(len(rs))
			rs, rest = rs[:m], string(rs[m:])
		}
		if err := e.SetAttribute(a.Name, b.refForm(string(rs))); err != nil {
			return err
		}
		if rest != "" {
			l := e.Attributes()
			x := l[len(l)-1]
			if b.t.n(2) == 0 {
				if err := x.AddContent([]byte(rest)); err != nil {
					return err
				}
				continue
			}
			y, err := b.doc.CreateText([]byte(rest))
			if err != nil {
				return err
			}
			if err := x.AddChild(y); err != nil {
				return err
			}
		}
	}
	if k := len(n.Attrs); k > 0 && b.t.n(4) == 0 {
		// one that is there already
		a := n.Attrs[b.t.n(k)].Name
		if e.SetAttribute(a, "again") == nil {
			return fmt.Errorf("the attribute %q could be set twice", a)
		}
	}
	for _, k := range n.Kids {
		switch {
		case k.K == KElem:
			if err := b.elem(e, k); err != nil {
				return err
			}
		case k.K == KText && b.t.n(2) == 0:
			// in pieces, directly
			rs := []rune(k.Text)
			for len(rs) > 0 {
				m := 1 + b.t.n(len(rs))
				b.steps++
				if b.t.n(3) == 0 {
					x, err := b.doc.CreateText([]byte(string(rs[:m])))
					if err != nil {
						return err
					}
					if err := b.append(e, x); err != nil {
						return err
					}
				} else if err := e.AddContent([]byte(string(rs[:m]))); err != nil {
					return err
				}
				rs = rs[m:]
			}
		default:
			x, err := b.leaf(k)
			if err != nil {
				return err
			}
			if b.t.n(6) == 0 && k.K != KText {
				// first something else, which is then replaced
				y, err := b.doc.CreateComment([]byte("no"))
				if err != nil {
					return err
				}
				if err := b.append(e, y); err != nil {
					return err
				}
				y.Replace(x)
				continue
			}
			if err := b.append(e, x); err != nil {
				return err
			}
		}
	}
	if nsLate {
		return ns()
	}
	return nil
}

// elem makes an element and puts it where it belongs, before or after it has
// been filled
func (b *builder) elem(parent helium.Node, n *N) error {
	b.steps++
	e, err := b.doc.CreateElement(local(n.Name))
	if err != nil {
		return err
	}
	early := b.t.n(2) == 0
	place := func() error {
		if d, ok := parent.(*helium.Document); ok && b.t.n(2) == 0 {
			if b.t.n(3) == 0 {
				x, err := b.doc.CreateElement("gone")
				if err != nil {
					return err
				}
				if err := d.SetDocumentElement(x); err != nil {
					return err
				}
			}
			return d.SetDocumentElement(e)
		}
		return b.append(parent, e)
	}
	if early {
		if err := place(); err != nil {
			return err
		}
	}
	if err := b.fill(e, n); err != nil {
		return err
	}
	if !early {
		return place()
	}
	return nil
}

func (b *builder) subset(m *DTD) error {
	dtd, err := b.doc.CreateInternalSubset(m.Name, "", "")
	if err != nil {
		return err
	}
	addEntity := dtd.AddEntity
	if b.t.n(2) == 0 {
		addEntity = b.doc.AddEntity
	}
	for _, d := range m.Decls {
		b.steps++
		switch d.K {
		case "elem":
			var cm *helium.ElementContent
			typ := helium.AnyElementType
			switch d.Type {
			case "EMPTY":
				typ = helium.EmptyElementType
			case "MIXED":
				typ = helium.MixedElementType
				if cm, err = b.doc.CreateElementContent("", helium.ElementContentPCDATA); err != nil {
					return err
				}
			case "CHILDREN":
				typ = helium.ElementElementType
				if cm, err = b.doc.CreateElementContent(d.Model.Kids[0].Name, helium.ElementContentElement); err != nil {
					return err
				}
			}
			_, err = dtd.AddElementDecl(d.Name, typ, cm)
		case "ent":
			_, err = addEntity(d.Name, helium.InternalGeneralEntity, "", "", d.Text)
		case "pent":
			_, err = addEntity(d.Name, helium.InternalParameterEntity, "", "", d.Text)
		case "comm", "pi":
			var x helium.Node
			if x, err = b.leaf(&N{K: map[string]string{"comm": KComm, "pi": KPI}[d.K], Name: d.Name, Text: d.Text}); err == nil {
				err = dtd.AddChild(x)
			}
		}
		if err != nil {
			return err
		}
	}
	return nil
}

// repeated tries to declare things again: this is refused
func repeated(doc *helium.Document, m *DTD) error {
	if _, err := doc.CreateInternalSubset("again", "", ""); err == nil {
		return errorf("a second internal subset can be made")
	}
	dtd, err := doc.InternalSubset()
	if err != nil || dtd != doc.IntSubset() {
		return errorf("InternalSubset gives %v, not the subset", err)
	}
	for _, d := range m.Decls {
		switch d.K {
		case "elem":
			if _, err := dtd.AddElementDecl(d.Name, helium.EmptyElementType, nil); err == nil {
				return errorf("a second declaration of the element %s is not refused", d.Name)
			}
			if x, ok := dtd.GetElementDesc(d.Name); !ok || x.Name() != local(d.Name) {
				return errorf("the declaration of %s is not found", d.Name)
			}
			p, l := prefixOf(d.Name), local(d.Name)
			if _, ok := dtd.LookupElement(l, p); !ok {
				return errorf("the declaration of %s is not found by its parts", d.Name)
			}
			mixed, err := doc.IsMixedElement(d.Name)
			if err != nil || mixed != (d.Type != "CHILDREN") {
				return errorf("IsMixedElement(%s) gives %v, %v", d.Name, mixed, err)
			}
		case "ent":
			if _, err := dtd.AddEntity(d.Name, helium.InternalGeneralEntity, "", "", "again"); err == nil {
				return errorf("a second declaration of the entity %s is not refused", d.Name)
			}
			if x, ok := doc.GetEntity(d.Name); !ok || string(x.Content()) != d.Text || x.Name() != d.Name {
				return errorf("the entity %s is not found", d.Name)
			}
			if x, ok := dtd.LookupEntity(d.Name); !ok || string(x.Content()) != d.Text {
				return errorf("the entity %s is not found in the subset", d.Name)
			}
		case "pent":
			if _, err := doc.AddEntity(d.Name, helium.InternalParameterEntity, "", "", "again"); err == nil {
				return errorf("a second declaration of the parameter entity %s is not refused", d.Name)
			}
			if x, ok := doc.GetParameterEntity(d.Name); !ok || string(x.Content()) != d.Text {
				return errorf("the parameter entity %s is not found", d.Name)
			}
		}
	}
	return nil
}

// build assembles the document
func build(m *Doc, t *tape) (*helium.Document, int, error) {
	b := &builder{t: t}
	switch {
	case m.Decl == nil:
		b.doc = helium.CreateDocument()
	default:
		b.doc = helium.NewDocument(m.Decl.Version, m.Decl.Encoding, standalone(m.Decl.Standalone))
	}
	misc := func(l []*N) error {
		for _, n := range l {
			x, err := b.leaf(n)
			if err != nil {
				return err
			}
			if err := b.append(b.doc, x); err != nil {
				return err
			}
		}
		return nil
	}
	if err := misc(m.Before); err != nil {
		return nil, 0, err
	}
	// the subset may also be made later: it still comes before the root
	when := 0
	if m.DTD != nil && len(m.Mid) == 0 {
		when = b.t.n(5)
	}
	if m.DTD != nil && when < 3 {
		if err := b.subset(m.DTD); err != nil {
			return nil, 0, err
		}
	}
	if err := misc(m.Mid); err != nil {
		return nil, 0, err
	}
	if err := b.elem(b.doc, m.Root); err != nil {
		return nil, 0, err
	}
	if when == 3 {
		if err := b.subset(m.DTD); err != nil {
			return nil, 0, err
		}
	}
	if err := misc(m.After); err != nil {
		return nil, 0, err
	}
	if when == 4 {
		if err := b.subset(m.DTD); err != nil {
			return nil, 0, err
		}
	}
	return b.doc, b.steps, nil
}

// buildable keeps the declarations that the API can make
func buildable(m *Doc) *Doc {
	r := *m
	if r.DTD == nil {
		r.Before, r.Mid = append(append([]*N(nil), r.Before...), r.Mid...), nil
		return &r
	}
	d := &DTD{Name: m.DTD.Name}
	for _, x := range bound(m.DTD.Decls) {
		if x.K == "att" {
			continue
		}
		// the API makes models with one item only
		switch y := *x; {
		case x.K == "elem" && x.Type == "MIXED":
			y.Model = &CM{Op: "or", Kids: []*CM{{Op: "pcdata"}}}
			x = &y
		case x.K == "elem" && x.Type == "CHILDREN":
			k := x.Model
			for k.Op != "name" {
				k = k.Kids[0]
			}
			y.Model = &CM{Op: "seq", Kids: []*CM{{Op: "name", Name: k.Name}}}
			x = &y
		}
		d.Decls = append(d.Decls, x)
	}
	r.DTD = d
	return &r
}

func checkBuild(c buildCase) Out {
	m := c.Doc
	want := m.canon(canonOpt{dumped: true})
	doc, steps, err := build(m, &tape{b: c.Tape})
	if err != nil {
		return failf("building was refused: %v\n%s", err, want)
	}
	out := Out{Sample: want}
	built, err := fromDOM(doc, true)
	if err != nil {
		return failf("%v\n%s", err, want)
	}
	if m.DTD == nil {
		built.Before, built.Mid = append(built.Before, built.Mid...), nil
	}
	if got := built.canon(canonOpt{dumped: true}); got != want {
		return failf("the accessors report something else: %s\nbuilt: %s", diffLines(want, got), want)
	}
	if m.DTD != nil {
		if err := repeated(doc, m.DTD); err != nil {
			return failf("%v\n%s", err, want)
		}
	}
	s, err := doc.XMLString()
	if err != nil {
		return failf("serialising: %v\n%s", err, want)
	}
	out.Sample += "   gives\n" + s
	out.NonTrivial = steps >= 8 && (strings.Contains(s, "&") || m.DTD != nil && len(m.DTD.Decls) > 0)
	if steps >= 20 {
		out.Labels = append(out.Labels, "20+ calls")
	}
	var buf bytes.Buffer
	if err := doc.XML(&buf); err != nil || buf.String() != s {
		return failf("XML gives something else than XMLString: %v\n%s", err, show(buf.Bytes()))
	}
	if r := refParse([]byte(s)); r.V == vBad {
		return failf("the output is not well-formed: %s\n%s", r.Msg, show([]byte(s)))
	} else if r.V == vOK {
		out.Labels = append(out.Labels, "read by the reference parser")
		if m.DTD == nil {
			r.Doc.Before, r.Doc.Mid = append(r.Doc.Before, r.Doc.Mid...), nil
		}
		if got := r.Doc.canon(canonOpt{dumped: true}); got != want {
			return failf("the output says something else: %s\noutput: %s", diffLines(want, got), show([]byte(s)))
		}
	}
	if err := checkTree([]byte(s), m, canonOpt{dumped: true}); err != nil {
		return failf("reading the output: %v", err)
	}
	// elements on their own
	if e, ok := rootOf(doc).(*helium.Element); ok {
		var b1 bytes.Buffer
		err := e.XML(&b1)
		s1, err1 := e.XMLString()
		s2, err2 := dumpNode(e)
		if err != nil || err1 != nil || err2 != nil || b1.String() != s1 || s1 != s2 {
			return failf("the ways to write an element differ: %v %q, %v %q, %v %q", err, b1.String(), err1, s1, err2, s2)
		}
		if (m.Decl == nil || m.Decl.Encoding == "") && !strings.Contains(s, s1) {
			return failf("the element is written differently on its own:\n%s\n%s", s1, s)
		}
	}
	return out
}

func init() {
	prop("P05", "at least 8 construction calls and a value with a character that needs escaping, or a declaration; external: an external identifier; references: more than one node")

	reg("P05", "build", 30000, 1500000,
		func(t *rapid.T) buildCase {
			return buildCase{buildable(genDoc(t, GenOpt{})), genTape(t, 40)}
		},
		checkBuild)
	reg("P05", "external", 6000, 300000, genExternal, checkExternal)
}

// ---- external identifiers ----

type extEnt struct {
	Name     string
	Kind     int // 0: parsed, 1: unparsed, 2: parameter entity
	Pub, Sys string
	Notation string
}

type extCase struct {
	Root     string
	Pub, Sys string
	Ents     []extEnt
	Late     bool
}

var (
	reLit  = `("[^"]*"|'[^']*')`
	reExt  = `(?:PUBLIC[ \t\r\n]+` + reLit + `[ \t\r\n]+` + reLit + `|SYSTEM[ \t\r\n]+` + reLit + `)`
	reDoct = regexp.MustCompile(`^<!DOCTYPE[ \t\r\n]+([^ \t\r\n>\["']+)(?:[ \t\r\n]+` + reExt + `)?[ \t\r\n]*([\[>])`)
	reEnt  = regexp.MustCompile(`^[ \t\r\n]*<!ENTITY[ \t\r\n]+(%[ \t\r\n]+)?([^ \t\r\n>"'%]+)[ \t\r\n]+` + reExt + `(?:[ \t\r\n]+NDATA[ \t\r\n]+([^ \t\r\n>]+))?[ \t\r\n]*>`)
	reDEnd = regexp.MustCompile(`^[ \t\r\n]*\][ \t\r\n]*>`)
)

func unlit(s string) string {
	if len(s) < 2 {
		return ""
	}
	return s[1 : len(s)-1]
}

// readExternal reads the declarations of such a document
func readExternal(s string) (c extCase, err error) {
	i := strings.Index(s, "<!DOCTYPE")
	if i < 0 {
		return c, errorf("there is no document type declaration")
	}
	if j := strings.Index(s, "<"+"root"); j >= 0 && j < i {
		return c, errorf("the document type declaration comes after the root")
	}
	s = s[i:]
	m := reDoct.FindStringSubmatch(s)
	if m == nil {
		return c, errorf("this is no document type declaration")
	}
	c.Root, c.Pub, c.Sys = m[1], unlit(m[2]), unlit(m[3])+unlit(m[4])
	s = s[len(m[0]):]
	if m[5] == ">" {
		return c, nil
	}
	for {
		if reDEnd.MatchString(s) {
			return c, nil
		}
		m := reEnt.FindStringSubmatch(s)
		if m == nil {
			return c, errorf("this is no declaration: %s", clip(s, 100))
		}
		e := extEnt{Name: m[2], Pub: unlit(m[3]), Sys: unlit(m[4]) + unlit(m[5]), Notation: m[6]}
		if e.Notation != "" {
			e.Kind = 1
		}
		if m[1] != "" {
			e.Kind = 2
		}
		c.Ents = append(c.Ents, e)
		s = s[len(m[0]):]
	}
}

func checkExternal(c extCase) Out {
	out := Out{NonTrivial: len(c.Ents) > 0 || c.Sys != ""}
	doc := helium.CreateDocument()
	root, err := doc.CreateElement("root")
	if err != nil {
		return failf("%v", err)
	}
	if c.Late {
		if err := doc.AddChild(root); err != nil {
			return failf("%v", err)
		}
	}
	dtd, err := doc.CreateInternalSubset(c.Root, c.Pub, c.Sys)
	if err != nil {
		return failf("%v", err)
	}
	kinds := []helium.EntityType{helium.ExternalGeneralParsedEntity, helium.ExternalGeneralUnparsedEntity, helium.ExternalParameterEntity}
	for _, e := range c.Ents {
		if _, err := dtd.AddEntity(e.Name, kinds[e.Kind], e.Pub, e.Sys, e.Notation); err != nil {
			return failf("declaring %s: %v", e.Name, err)
		}
	}
	if !c.Late {
		if err := doc.AddChild(root); err != nil {
			return failf("%v", err)
		}
	}
	s, err := doc.XMLString()
	if err != nil {
		return failf("serialising: %v", err)
	}
	out.Sample = s
	got, err := readExternal(s)
	if err != nil {
		return failf("%v:\n%s", err, s)
	}
	got.Late = c.Late
	if !reflect.DeepEqual(got, c) {
		return failf("built: %+v\nthe output says: %+v\n%s", c, got, s)
	}
	return out
}

func genExternal(t *rapid.T) extCase {
	lit := func(max int) string {
		q := pick(t, []string{"\"", "'", ""})
		var b strings.Builder
		for n := ri(t, 1, max); n > 0; n-- {
			b.WriteString(pick(t, []string{"a", "Z", "/", "http://x/", "é", " ", "&amp;", "&", "%", "<", ">", "]>", "日", "\n", "-", ";", "#", "?", "[", q, "%e;"}))
		}
		return b.String()
	}
	pub := func() string {
		if rb(t) {
			return ""
		}
		var b strings.Builder
		for n := ri(t, 1, 8); n > 0; n-- {
			b.WriteString(pick(t, []string{"-//", "x", "A", "9", " ", "'", "()", "+", ",", ".", "/", ":", "=", "?", ";", "!", "*", "#", "@", "$", "_", "%"}))
		}
		return b.String()
	}
	c := extCase{Root: genNCName(t), Late: chance(t, 1, 3)}
	if chance(t, 3, 4) {
		c.Sys, c.Pub = lit(8), pub()
	}
	seen := map[string]bool{}
	for n := ri(t, 0, 5); n > 0; n-- {
		e := extEnt{Name: genNCName(t), Kind: uni(t, 3), Pub: pub(), Sys: lit(8)}
		if e.Kind == 1 {
			e.Notation = genNCName(t)
		}
		if seen[e.Name] {
			continue
		}
		seen[e.Name] = true
		c.Ents = append(c.Ents, e)
	}
	return c
}

func rootOf(doc *helium.Document) helium.Node {
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		if c.Type() == helium.ElementNode {
			return c
		}
	}
	return nil
}
