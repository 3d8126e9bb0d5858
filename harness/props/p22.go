package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P22: white space in content is classified by the declarations.

// wsItem is a piece of content as it is written
type wsItem struct {
	K    string // "lit", "cref", "pre", "cdata", "comment", "pi", "elem", "ent"
	Text string // what it stands for
	Raw  string // how it is written, for lit, cref and pre
	Name string // of the element, the entity or the target
	Kids []*wsItem
}

type wsCase struct {
	Types map[string]string // of the declared elements
	Ents  map[string][]*wsItem
	Root  *wsItem
	Src   []byte
}

// wsTok is what is expected: markup, or a character with the classes it may
// be reported with: I(gnorable), C(haracters), ?
type wsTok struct {
	Mark  string
	R     rune
	Class byte
}

func isWS(s string) bool { return strings.Trim(s, " \t\r\n") == "" }

// flat lists the content of an element with entities replaced. Reference
// events come after the content.
func (c *wsCase) flat(l []*wsItem) (out []*wsItem) {
	for _, k := range l {
		if k.K == "ent" {
			out = append(out, c.flat(c.Ents[k.Name])...)
			out = append(out, &wsItem{K: "ref", Name: k.Name})
			continue
		}
		out = append(out, k)
	}
	return
}

func isTextItem(k string) bool { return k == "lit" || k == "cref" || k == "pre" || k == "cdata" }

func (c *wsCase) expect(e *wsItem, out []wsTok) []wsTok {
	out = append(out, wsTok{Mark: "start " + e.Name})
	l := c.flat(e.Kids)
	typ := c.Types[e.Name]
	for i := 0; i < len(l); {
		k := l[i]
		if !isTextItem(k.K) && k.K != "ref" {
			switch k.K {
			case "elem":
				out = c.expect(k, out)
			default:
				out = append(out, wsTok{Mark: k.K + " " + k.Name + " " + k.Text})
			}
			i++
			continue
		}
		// text up to the next markup
		j := i
		plain := true // nothing but literal white space
		for ; j < len(l) && (isTextItem(l[j].K) || l[j].K == "ref"); j++ {
			if l[j].K != "ref" && (l[j].K != "lit" || !isWS(l[j].Text)) {
				plain = false
			}
		}
		for ; i < j; i++ {
			k := l[i]
			if k.K == "ref" {
				out = append(out, wsTok{Mark: "ref " + k.Name})
				continue
			}
			class := byte('?')
			switch {
			case typ == "MIXED" || typ == "ANY":
				class = 'C'
			case !isWS(k.Text):
				class = 'C'
			case typ == "CHILDREN" && plain:
				class = 'I'
			}
			for _, r := range k.Text {
				out = append(out, wsTok{R: r, Class: class})
			}
		}
	}
	return append(out, wsTok{Mark: "end " + e.Name})
}

// model is the tree
func (c *wsCase) model(e *wsItem) *N {
	n := &N{K: KElem, Name: e.Name}
	for _, k := range e.Kids {
		switch k.K {
		case "elem":
			n.Kids = append(n.Kids, c.model(k))
		case "comment":
			n.Kids = append(n.Kids, &N{K: KComm, Text: k.Text})
		case "pi":
			n.Kids = append(n.Kids, &N{K: KPI, Name: k.Name, Text: k.Text})
		case "ent":
			n.Kids = append(n.Kids, &N{K: KRef, Name: k.Name})
		default:
			n.Kids = append(n.Kids, &N{K: KText, Text: k.Text})
		}
	}
	n.Kids = norm(n.Kids)
	return n
}

func wsTokens(r *recorder) (out []wsTok) {
	text := func(s string, class byte) {
		for _, x := range s {
			out = append(out, wsTok{R: x, Class: class})
		}
	}
	for _, e := range r.evs {
		switch e.K {
		case "start", "end":
			out = append(out, wsTok{Mark: e.K + " " + e.Name})
		case "comment", "pi":
			out = append(out, wsTok{Mark: e.K + " " + e.Name + " " + e.Data})
		case "ref":
			out = append(out, wsTok{Mark: "ref " + e.Name})
		case "chars", "cdata":
			text(e.Data, 'C')
		case "ignorable":
			text(e.Data, 'I')
		}
	}
	return
}

func (t wsTok) String() string {
	if t.Mark != "" {
		return t.Mark
	}
	switch t.Class {
	case 'I':
		return fmt.Sprintf("%q as ignorable white space", t.R)
	case 'C':
		return fmt.Sprintf("%q as character data", t.R)
	}
	return fmt.Sprintf("%q", t.R)
}

func compareWS(want, got []wsTok) error {
	for i := 0; i < len(want) || i < len(got); i++ {
		if i >= len(want) {
			return errorf("there is more than expected: %s", got[i])
		}
		if i >= len(got) {
			return errorf("%s is missing at the end", want[i])
		}
		a, b := want[i], got[i]
		if a.Mark != b.Mark || a.R != b.R || a.Class != '?' && a.Class != b.Class {
			ctx := ""
			for j := i - 6; j < i; j++ {
				if j >= 0 {
					ctx += got[j].String() + "; "
				}
			}
			return errorf("event %d: %s\nwant     %s\nafter    %s", i, b, a, ctx)
		}
	}
	return nil
}

func checkWS(c wsCase) Out {
	want := c.expect(c.Root, nil)
	out := Out{Sample: string(c.Src)}
	seen := map[byte]int{}
	for _, t := range want {
		if t.Mark == "" {
			seen[t.Class]++
		}
	}
	for k, n := range seen {
		if n > 0 {
			out.Labels = append(out.Labels, "class "+string(k))
		}
	}
	if len(c.Ents) > 0 {
		out.Labels = append(out.Labels, "with entities")
	}
	out.NonTrivial = seen['I'] > 0 && seen['C'] > 0
	for _, fwd := range []bool{false, true} {
		r := newRecorder(fwd)
		if _, err := parseRec(c.Src, r); err != nil {
			return failf("rejected: %v\ndocument: %s", err, show(c.Src))
		}
		var got []wsTok
		if got = wsTokens(r); len(got) > 0 {
			// comments before the root element do not occur
			for len(got) > 0 && !strings.HasPrefix(got[0].Mark, "start") {
				got = got[1:]
			}
		}
		if err := compareWS(want, got); err != nil {
			return failf("(passed on: %v) %v\ndocument: %s", fwd, err, show(c.Src))
		}
	}
	// the default tree keeps all of it
	doc, err := helium.Parse(c.Src)
	if err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(c.Src))
	}
	m, err := fromDOM(doc, false)
	if err != nil {
		return failf("%v\ndocument: %s", err, show(c.Src))
	}
	o := canonOpt{noDecl: true, noNS: true}
	if a, b := (&Doc{Root: c.model(c.Root)}).canon(o), (&Doc{Root: m.Root}).canon(o); a != b {
		return failf("wrong tree: %s\ndocument: %s", diffLines(a, b), show(c.Src))
	}
	for name, l := range c.Ents {
		e, ok := doc.GetEntity(name)
		if !ok || e.FirstChild() == nil {
			continue
		}
		kids, err := domKids(e, 0)
		if err != nil {
			return failf("entity %s: %v\ndocument: %s", name, err, show(c.Src))
		}
		a, b := (&Doc{Root: c.model(&wsItem{Name: name, Kids: l})}).canon(o), (&Doc{Root: &N{K: KElem, Name: name, Kids: kids}}).canon(o)
		if a != b {
			return failf("wrong tree of entity %s: %s\ndocument: %s", name, diffLines(a, b), show(c.Src))
		}
	}
	return out
}

// ---- generation ----

type wsGen struct {
	t     *rapid.T
	c     *wsCase
	names []string
	ents  []string // that may be used
	inEnt bool
}

func (g *wsGen) white() (text, raw string) {
	n := ri(g.t, 1, 4)
	if !g.inEnt && chance(g.t, 1, 60) {
		n = ri(g.t, 100, 5000)
	}
	var a, b strings.Builder
	for ; n > 0; n-- {
		w := pick(g.t, []string{" ", " ", "\t", "\n", "\r", "\r\n"})
		if g.inEnt && w[0] == '\r' {
			w = "\n"
		}
		if w == "\n" && strings.HasSuffix(b.String(), "\r") {
			w = " "
		}
		b.WriteString(w)
		if w[0] == '\r' {
			w = "\n"
		}
		a.WriteString(w)
	}
	return a.String(), b.String()
}

func (g *wsGen) lit() *wsItem {
	text, raw := "", ""
	kind := ri(g.t, 0, 5)
	if kind != 3 {
		text, raw = g.white()
	}
	if kind >= 3 {
		s := pick(g.t, []string{"x", "é", "foo bar", "]]", "日本\n語", "0", "\u00a0", "\u3000", "\u200b", "\u0085", ".", "]", "\U0001F600", "a\nb", "-->", "?>", "\u2028"})
		text, raw = text+s, raw+s
	}
	if kind == 5 {
		a, b := g.white()
		text, raw = text+a, raw+b
	}
	return &wsItem{K: "lit", Text: text, Raw: raw}
}

func (g *wsGen) content(depth, max int, pure bool) (l []*wsItem) {
	t := g.t
	for n := ri(t, 0, max); n > 0; n-- {
		last := ""
		if len(l) > 0 {
			last = l[len(l)-1].K
		}
		k := uni(t, 10)
		if pure && k > 4 {
			k -= 5
		}
		switch {
		case k <= 1:
			if last == "lit" {
				continue
			}
			x := g.lit()
			if pure {
				a, b := g.white()
				x = &wsItem{K: "lit", Text: a, Raw: b}
			}
			l = append(l, x)
		case k == 2:
			s := pick(t, []string{"", " ", "c", "\n", " x ", "<r>"})
			l = append(l, &wsItem{K: "comment", Text: s})
		case k == 3:
			l = append(l, &wsItem{K: "pi", Name: pick(t, []string{"a", "b"}), Text: pick(t, []string{"", "x", "y  z"})})
		case k == 4:
			if depth > 0 {
				e := &wsItem{K: "elem", Name: pick(t, g.names)}
				e.Kids = g.content(depth-1, max, g.c.Types[e.Name] == "CHILDREN" && chance(t, 3, 4))
				l = append(l, e)
			}
		case k == 5:
			r := pick(t, []string{" ", "\n", "\t", "\r", "x", "é", "<", "&", "]", "\U0001F600"})
			x := []rune(r)[0]
			raw := fmt.Sprintf("&#%d;", x)
			if rb(t) {
				raw = fmt.Sprintf("&#x%X;", x)
			}
			l = append(l, &wsItem{K: "cref", Text: r, Raw: raw})
		case k == 6:
			p := pick(t, []string{"lt", "gt", "amp", "apos", "quot"})
			l = append(l, &wsItem{K: "pre", Text: map[string]string{"lt": "<", "gt": ">", "amp": "&", "apos": "'", "quot": "\""}[p], Raw: "&" + p + ";"})
		case k == 7:
			s := pick(t, []string{"", " ", "\n\t", "x", " y ", "<z>&amp;", "]]", "]"})
			l = append(l, &wsItem{K: "cdata", Text: s})
		default:
			if len(g.ents) > 0 {
				l = append(l, &wsItem{K: "ent", Name: pick(t, g.ents)})
			}
		}
	}
	return
}

// guard keeps "]]>" out of literal text
func guardText(l []*wsItem) {
	for i := 1; i < len(l); i++ {
		if l[i].K == "lit" && strings.HasPrefix(l[i].Raw, ">") {
			l[i].Text, l[i].Raw = "x"+l[i].Text, "x"+l[i].Raw
		}
	}
}

func writeWS(b *strings.Builder, l []*wsItem, alt bool) {
	for _, k := range l {
		switch k.K {
		case "lit", "cref", "pre":
			b.WriteString(k.Raw)
		case "cdata":
			b.WriteString("<![CDATA[" + k.Text + "]]>")
		case "comment":
			b.WriteString("<!--" + k.Text + "-->")
		case "pi":
			b.WriteString("<?" + k.Name)
			if k.Text != "" {
				b.WriteString(" " + k.Text)
			}
			b.WriteString("?>")
		case "ent":
			b.WriteString("&" + k.Name + ";")
		case "elem":
			b.WriteString("<" + k.Name)
			if len(k.Kids) == 0 && alt {
				b.WriteString("/>")
				continue
			}
			b.WriteString(">")
			writeWS(b, k.Kids, alt)
			b.WriteString("</" + k.Name + ">")
		}
	}
}

func genWSCase(t *rapid.T) wsCase {
	c := wsCase{Types: map[string]string{}, Ents: map[string][]*wsItem{}}
	g := &wsGen{t: t, c: &c, names: []string{"r", "x", "y", "X", "p:x", "q:x", "p:y"}}
	prefixed := true
	d := &DTD{Name: "r"}
	for _, n := range g.names {
		m := genModelDecl(t, n, g.names)
		if rb(t) { // element content, most often
			m = &Decl{K: "elem", Name: n, Type: "CHILDREN", Model: asGroup(genModel(t, g.names, 2, ri(t, 1, 5)))}
		}
		if m.Model != nil && m.Model.size() > 40 {
			m.Type, m.Model = "ANY", nil
		}
		switch ri(t, 0, 7) {
		case 0: // not declared, but its attributes
			d.Decls = append(d.Decls, &Decl{K: "att", Name: n, Att: "a", AttType: "CDATA", Def: "#IMPLIED"})
			continue
		case 1: // not declared
			continue
		case 2: // attributes first
			d.Decls = append(d.Decls, &Decl{K: "att", Name: n, Att: "a", AttType: "CDATA", Def: "#IMPLIED"})
		}
		d.Decls = append(d.Decls, m)
		c.Types[n] = m.Type
		if chance(t, 1, 8) { // again: only the first one counts
			x := genModelDecl(t, n, []string{"x"})
			if x.Model == nil || x.Model.size() < 40 {
				d.Decls = append(d.Decls, x)
			}
		}
	}
	if len(d.Decls) > 1 && chance(t, 1, 3) {
		// in another order; the first of a name stays the first
		k := ri(t, 1, len(d.Decls)-1)
		moved := append(append([]*Decl(nil), d.Decls[k:]...), d.Decls[:k]...)
		c.Types = map[string]string{}
		d.Decls = moved
		for _, x := range moved {
			if _, ok := c.Types[x.Name]; !ok && x.K == "elem" {
				c.Types[x.Name] = x.Type
			}
		}
	}
	alt := rb(t)
	s := newSpeller(t)
	s.w("<!DOCTYPE r [")
	s.decls(d.Decls)
	if chance(t, 1, 3) {
		g.inEnt = true
		n, chain := ri(t, 1, 3), chance(t, 1, 6)
		if chain {
			n = ri(t, 4, 10)
		}
		for i := n; i > 0; i-- {
			name := fmt.Sprintf("e%d", i)
			l := g.content(2, 4, rb(t))
			if chain {
				// each within the next one
				if k := len(g.ents); k > 0 {
					l = append(l, &wsItem{K: "ent", Name: g.ents[k-1]})
				}
				g.ents = nil
			}
			fixEnt(l)
			guardText(l)
			var b strings.Builder
			writeWS(&b, l, alt)
			c.Ents[name] = l
			raw := strings.Replace(b.String(), "&#", "&#38;#", -1)
			raw = strings.NewReplacer("\"", "&#34;", "%", "&#37;").Replace(raw)
			s.w("<!ENTITY " + name + " \"" + raw + "\">\n")
			g.ents = append(g.ents, name)
		}
		g.inEnt = false
	}
	s.w("]>")
	root := &wsItem{K: "elem", Name: "r"}
	root.Kids = g.content(4, 9, c.Types["r"] == "CHILDREN" && rb(t))
	for i := ri(t, 0, 6); i > 0; i-- {
		e := &wsItem{K: "elem", Name: pick(t, g.names)}
		e.Kids = g.content(2, 9, c.Types[e.Name] == "CHILDREN" && chance(t, 3, 4))
		root.Kids = append(root.Kids, e)
	}
	c.Root = root
	var walk func(e *wsItem)
	walk = func(e *wsItem) {
		guardText(e.Kids)
		for _, k := range e.Kids {
			walk(k)
		}
	}
	walk(root)
	var b strings.Builder
	writeWS(&b, []*wsItem{root}, alt)
	body := b.String()
	if prefixed {
		body = "<r xmlns:p='urn:p' xmlns:q='urn:q'" + body[2:]
	}
	s.w(body)
	c.Src = []byte(s.b.String())
	return c
}

// fixEnt keeps prefixed elements out of entities
func fixEnt(l []*wsItem) {
	for _, k := range l {
		if k.K == "elem" {
			k.Name = local(k.Name)
		}
		fixEnt(k.Kids)
	}
}

func init() {
	prop("P22", "the document has both white space that has to be ignorable and characters that must not be")
	reg("P22", "classified", 40000, 2500000, genWSCase, checkWS)
	reg("P22", "split", 20000, 1000000, genSplit, checkSplit)
}

// ---- text split in every way ----

type splitCase struct {
	Typ   string
	Text  string
	Cuts  []int
	How   []int // what is put at the cuts
	Esc   []int // characters written as references
	Inner bool
}

func genSplit(t *rapid.T) splitCase {
	c := splitCase{Typ: pick(t, []string{"", "MIXED", "ANY", "CHILDREN"}), Inner: rb(t)}
	c.Text = genText(t, 1, 30, true)
	if rb(t) {
		c.Text = strings.Map(func(r rune) rune {
			if r > 'a' && r < 'z' {
				return ' '
			}
			return r
		}, c.Text)
	}
	if chance(t, 1, 20) {
		c.Text = genLongText(t, true)
	}
	n := len([]rune(c.Text))
	for k := ri(t, 0, 12); k > 0; k-- {
		c.Cuts = append(c.Cuts, uni(t, n+1))
		c.How = append(c.How, uni(t, 6))
	}
	for k := ri(t, 0, 5); k > 0; k-- {
		c.Esc = append(c.Esc, uni(t, n+1))
	}
	return c
}

// checkSplit writes a text with all sorts of things in between and expects
// to get it back
func checkSplit(c splitCase) Out {
	rs := []rune(c.Text)
	at := map[int][]int{}
	for i, p := range c.Cuts {
		at[p] = append(at[p], c.How[i])
	}
	esc := map[int]bool{}
	for _, p := range c.Esc {
		esc[p] = true
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE r [<!ENTITY e 'E F'><!ENTITY n ''>")
	switch c.Typ {
	case "MIXED":
		b.WriteString("<!ELEMENT r (#PCDATA|x)*>")
	case "ANY":
		b.WriteString("<!ELEMENT r ANY>")
	case "CHILDREN":
		b.WriteString("<!ELEMENT r (x*)>")
	}
	b.WriteString("<!ELEMENT s ANY>]><s><r>")
	var all, tree strings.Builder // with entities, and without
	in := false
	brackets := 0
	for i := 0; i <= len(rs); i++ {
		for _, h := range at[i] {
			if in && h != 0 {
				b.WriteString("]]>")
				in = false
			}
			brackets = 0
			switch h {
			case 0:
				if in {
					b.WriteString("]]>")
				} else {
					b.WriteString("<![CDATA[")
				}
				in = !in
			case 1:
				b.WriteString("<!-- z -->")
			case 2:
				b.WriteString("<?z z?>")
			case 3:
				b.WriteString("&e;")
				all.WriteString("E F")
			case 4:
				b.WriteString("<x></x>")
			default:
				b.WriteString("&n;")
			}
		}
		if i == len(rs) {
			break
		}
		r := rs[i]
		all.WriteRune(r)
		tree.WriteRune(r)
		if in && (r == '\r' || r == '>' && brackets >= 2) {
			b.WriteString("]]>")
			in = false
		}
		switch {
		case in:
			b.WriteRune(r)
		case r == '<' || r == '&' || r == '\r' || r == '>' || esc[i]:
			fmt.Fprintf(&b, "&#x%x;", r)
			brackets = 0
			continue
		default:
			b.WriteRune(r)
		}
		if r == ']' {
			brackets++
		} else {
			brackets = 0
		}
	}
	if in {
		b.WriteString("]]>")
	}
	b.WriteString("</r></s>")
	src := []byte(b.String())
	out := Out{Sample: string(src), Labels: []string{"type " + c.Typ}, NonTrivial: len(c.Cuts) >= 3 && len(rs) >= 6}
	for _, fwd := range []bool{true, false} {
		r := newRecorder(fwd)
		if _, err := parseRec(src, r); err != nil {
			return failf("rejected: %v\ndocument: %s", err, show(src))
		}
		var got strings.Builder
		blank := true
		for _, e := range r.evs {
			if e.isText() {
				got.WriteString(e.Data)
				if e.K == "ignorable" {
					if !isWS(e.Data) {
						return failf("%q is reported as ignorable\ndocument: %s", e.Data, show(src))
					}
					if c.Typ == "MIXED" || c.Typ == "ANY" {
						return failf("%q in %s content is reported as ignorable\ndocument: %s", e.Data, c.Typ, show(src))
					}
				}
				blank = blank && isWS(e.Data)
			}
		}
		if got.String() != all.String() {
			return failf("the text that is reported (passed on: %v) is\n%q\nwant\n%q\ndocument: %s", fwd, got.String(), all.String(), show(src))
		}
	}
	doc, err := helium.Parse(src)
	if err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(src))
	}
	m, err := fromDOM(doc, false)
	if err != nil {
		return failf("%v\ndocument: %s", err, show(src))
	}
	var got strings.Builder
	m.Root.each(func(n *N, _ int) {
		if n.K == KText {
			got.WriteString(n.Text)
		}
	})
	if got.String() != tree.String() {
		return failf("the text in the tree is\n%q\nwant\n%q\ndocument: %s", got.String(), tree.String(), show(src))
	}
	return out
}
