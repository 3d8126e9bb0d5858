package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P23: parameter entities, and which entities have to be declared.

// peItem is something in the internal subset
type peItem struct {
	K    string // "ent", "pent", "pe" (a reference), "att", "misc"
	Name string
	Text string // the literal
}

type peCase struct {
	Standalone string
	Items      []peItem
	Attr       string // an attribute value
	Text       string // the content
	Fwd        bool
}

// ---- the reference model ----

var (
	errMissing = errors.New("not declared")
	errCycle   = errors.New("refers to itself")
	errUnsure  = errors.New("unsure")
	errMarkup  = errors.New("markup in an attribute value")
)

type peModel struct {
	standalone bool
	pes        bool // there was a parameter entity reference
	ents       map[string]string
	pents      map[string]string
	evs        []Ev
	labels     map[string]bool
	budget     int
	inAttr     bool
}

// inAttribute checks what an attribute value refers to
func (m *peModel) inAttribute(s string) error {
	m.inAttr = true
	defer func() { m.inAttr = false }()
	return m.use(s, nil, ignore, ignore)
}

func (m *peModel) mustDeclare() bool { return m.standalone || !m.pes }

// peRef looks a parameter entity up
func (m *peModel) peRef(name string) (string, bool, error) {
	s, ok := m.pents[name]
	if !ok && m.mustDeclare() {
		return "", false, fmt.Errorf("%%%s; is %w", name, errMissing)
	}
	m.pes = true
	if !ok {
		m.labels["undeclared parameter entity"] = true
	}
	return s, ok, nil
}

func cutRef(s string) (name, rest string) {
	i := strings.IndexByte(s, ';')
	return s[1:i], s[i+1:]
}

// value gives the replacement text of a literal
func (m *peModel) value(s string, depth int) (string, error) {
	if depth > 30 {
		return "", errCycle
	}
	var b strings.Builder
	for s != "" {
		if m.budget--; m.budget < 0 {
			return "", errUnsure
		}
		switch {
		case strings.HasPrefix(s, "&#"):
			var n string
			n, s = cutRef(s)
			var r rune
			fmt.Sscanf(n, "#%d", &r)
			b.WriteRune(r)
		case s[0] == '%':
			var n string
			n, s = cutRef(s)
			t, ok, err := m.peRef(n)
			if err != nil {
				return "", err
			}
			if !ok {
				continue
			}
			m.labels["in an entity value"] = true
			if t, err = m.value(t, depth+1); err != nil {
				return "", err
			}
			b.WriteString(t)
		default:
			b.WriteByte(s[0])
			s = s[1:]
		}
	}
	return b.String(), nil
}

// use goes through what refers to general entities: text is called for what
// is between the references, ref after each reference
func (m *peModel) use(s string, open []string, text, ref func(string)) error {
	if m.inAttr && len(open) > 0 && strings.Contains(s, "<") {
		return errMarkup
	}
	for s != "" {
		if m.budget--; m.budget < 0 {
			return errUnsure
		}
		i := strings.IndexByte(s, '&')
		if i < 0 {
			text(s)
			return nil
		}
		text(s[:i])
		var n string
		n, s = cutRef(s[i:])
		if p, ok := predef[n]; ok {
			text(p)
			continue
		}
		if n[0] == '#' {
			var r rune
			fmt.Sscanf(n, "#%d", &r)
			text(string(r))
			continue
		}
		for _, o := range open {
			if o == n {
				return errCycle
			}
		}
		if e, ok := m.ents[n]; ok {
			if err := m.use(e, append(open[:len(open):len(open)], n), text, ref); err != nil {
				return err
			}
		} else if m.mustDeclare() {
			return fmt.Errorf("&%s; is %w", n, errMissing)
		} else {
			m.labels["undeclared entity"] = true
		}
		ref(n)
	}
	return nil
}

func ignore(string) {}

// badMarkup: not only the element b
func badMarkup(s string) bool { return strings.Contains(strings.Replace(s, "<b/>", "", -1), "<") }

// the form in which a value is reported
var attrForm = strings.NewReplacer("&lt;", "<", "&amp;", "&#38;")

func (m *peModel) run(c *peCase) error {
	var defs []EvAttr
	for _, x := range c.Items {
		switch x.K {
		case "ent", "pent":
			v, err := m.value(x.Text, 0)
			if err != nil {
				return err
			}
			l := m.ents
			if x.K == "pent" {
				l = m.pents
			}
			if _, ok := l[x.Name]; !ok {
				l[x.Name] = v
			} else {
				m.labels["declared twice"] = true
			}
			m.evs = append(m.evs, Ev{K: "decl", Decl: &Decl{K: x.K, Name: x.Name, Text: v}})
		case "pe":
			if _, _, err := m.peRef(x.Name); err != nil {
				return err
			}
		case "att":
			if err := m.inAttribute(x.Text); err != nil {
				return err
			}
			defs = append(defs, EvAttr{x.Name, attrForm.Replace(x.Text), true})
		}
	}
	if err := m.inAttribute(c.Attr); err != nil {
		return err
	}
	m.evs = append(m.evs, Ev{K: "start", Name: "a", Attrs: append([]EvAttr{{"v", attrForm.Replace(c.Attr), false}}, defs...)})
	text := func(s string) {
		for i, x := range strings.Split(s, "<b/>") {
			if i > 0 {
				m.labels["markup"] = true
				m.evs = append(m.evs, Ev{K: "start", Name: "b"}, Ev{K: "end", Name: "b"})
			}
			if x != "" {
				m.evs = append(m.evs, Ev{K: "chars", Data: x})
			}
		}
	}
	ref := func(n string) { m.evs = append(m.evs, Ev{K: "ref", Name: n}) }
	if err := m.use(c.Text, nil, text, ref); err != nil {
		return err
	}
	m.evs = append(m.evs, Ev{K: "end", Name: "a"})
	return nil
}

// ---- generator ----

var peNames = []string{"p", "q", "r", "e", "f", "g", "h"}

func (c *peCase) src() []byte {
	var b strings.Builder
	if c.Standalone != "" {
		fmt.Fprintf(&b, "<?xml version='1.0' standalone='%s'?>\n", c.Standalone)
	}
	b.WriteString("<!DOCTYPE a [")
	for _, x := range c.Items {
		switch x.K {
		case "ent":
			fmt.Fprintf(&b, "<!ENTITY %s %q>", x.Name, x.Text)
		case "pent":
			fmt.Fprintf(&b, "<!ENTITY %% %s %q>", x.Name, x.Text)
		case "pe":
			fmt.Fprintf(&b, "%%%s;", x.Name)
		case "att":
			fmt.Fprintf(&b, "<!ATTLIST a %s CDATA %q>", x.Name, x.Text)
		default:
			b.WriteString(x.Text)
		}
		b.WriteString("\n"[:len(x.Text)%2])
	}
	fmt.Fprintf(&b, "]><a v=%q>%s</a>", c.Attr, c.Text)
	return []byte(b.String())
}

// genPEText draws a text with references to entities of which most are
// declared
func genPEText(t *rapid.T, pents, ents []string, literal bool) string {
	var b strings.Builder
	for n := ri(t, 0, 4); n > 0; n-- {
		switch ri(t, 0, 9) {
		case 0, 1:
			b.WriteString(pick(t, []string{"x", "yz", ".", "é", "&lt;", "&amp;", "->", "'"}))
		case 2, 3, 4:
			l := ents
			if len(l) == 0 || chance(t, 1, 5) {
				l = peNames
			}
			b.WriteString("&" + l[uni(t, len(l))] + ";")
		case 5, 6, 7:
			if !literal {
				b.WriteString(pick(t, []string{"w", "ab", "]"}))
				break
			}
			l := pents
			if len(l) == 0 || chance(t, 1, 8) {
				l = peNames
			}
			b.WriteString("%" + l[uni(t, len(l))] + ";")
		case 8:
			if literal {
				// a reference that shows later
				b.WriteString(pick(t, []string{"&#38;", "&#37;"}) + peNames[uni(t, len(peNames))] + ";")
			}
		default:
			if literal && chance(t, 1, 5) {
				b.WriteString(pick(t, []string{"<b/>", "&#60;b/>"}))
			} else if literal {
				b.WriteString(pick(t, []string{"&#65;", "&#38;lt;", "&#38;#66;", "&#233;", "&#38;#38;#67;"}))
			}
		}
	}
	return b.String()
}

func genPECase(t *rapid.T) peCase {
	c := peCase{Fwd: rb(t), Standalone: pick(t, []string{"", "", "no", "yes"})}
	var pents, ents []string
	n := 0
	for i := ri(t, 1, 8); i > 0; i-- {
		switch ri(t, 0, 9) {
		case 0, 1, 2:
			x := peItem{"ent", peNames[uni(t, len(peNames))], genPEText(t, pents, ents, true)}
			c.Items, ents = append(c.Items, x), append(ents, x.Name)
		case 3, 4, 5:
			x := peItem{"pent", peNames[uni(t, len(peNames))], genPEText(t, pents, ents, true)}
			if chance(t, 1, 5) {
				x.Text = pick(t, []string{"<!ENTITY e 'y'>", "<!-- x -->", " ", "<!ATTLIST a z CDATA 'y'>", "<", "&#60;!ENTITY f 'y'>", "]>"})
			}
			c.Items, pents = append(c.Items, x), append(pents, x.Name)
		case 6, 7:
			x := peItem{K: "pe"}
			l := pents
			if len(l) == 0 || chance(t, 1, 6) {
				l = peNames
			}
			x.Name = l[uni(t, len(l))]
			c.Items = append(c.Items, x)
		case 8:
			l := ents
			if chance(t, 1, 3) {
				l = peNames[3:] // perhaps not yet
			}
			c.Items = append(c.Items, peItem{"att", fmt.Sprintf("d%d", n), genPEText(t, nil, l, false)})
			n++
		default:
			c.Items = append(c.Items, peItem{"misc", "", pick(t, []string{"<!-- %p; -->", "<?x %q;?>", "<!ELEMENT a ANY>", "<!ELEMENT b (#PCDATA)>", "<!-- &e; -->", " \n"})})
		}
	}
	if chance(t, 1, 60) {
		// references that show one after the other, to some depth
		n := ri(t, 2, 28)
		l := []peItem{{"pent", "c0", genPEText(t, pents, ents, true)}}
		for i := 1; i <= n; i++ {
			l = append(l, peItem{"pent", fmt.Sprintf("c%d", i), pick(t, []string{"", "x", "&#38;lt;"}) + fmt.Sprintf("&#37;c%d;", i-1) + pick(t, []string{"", "", "y"})})
		}
		c.Items = append(c.Items, append(l, peItem{"ent", "h", fmt.Sprintf("%%c%d;", n)})...)
		ents = append(ents, "h")
	}
	c.Attr, c.Text = genPEText(t, nil, ents, false), genPEText(t, nil, ents, false)
	if chance(t, 1, 4) {
		c.Attr += "%p;"
	}
	if chance(t, 1, 4) {
		c.Text = "%q;" + c.Text
	}
	return c
}

func checkPE(c peCase) Out {
	m := &peModel{standalone: c.Standalone == "yes", ents: map[string]string{}, pents: map[string]string{}, labels: map[string]bool{}, budget: 20000}
	src := c.src()
	want := m.run(&c)
	out := Out{Sample: string(src), Labels: sortedKeys(m.labels)}
	out.NonTrivial = m.pes || want != nil
	switch {
	case errors.Is(want, errUnsure):
		out.NonTrivial = false
		return out
	case errors.Is(want, errCycle):
		out.Labels = append(out.Labels, "cycle")
	case errors.Is(want, errMarkup):
		out.Labels = append(out.Labels, "markup in an attribute value")
	case errors.Is(want, errMissing):
		out.Labels = append(out.Labels, "missing")
	default:
		// replacement texts with markup in them are for P11
		for n, s := range m.ents {
			if badMarkup(s) {
				out.NonTrivial = false
				out.Labels = []string{"markup in " + n[:0] + "an entity"}
				return out
			}
		}
		out.Labels = append(out.Labels, "accepted")
	}
	if want != nil {
		for _, s := range m.ents {
			if badMarkup(s) {
				out.NonTrivial = false
				return out
			}
		}
		out.Err = mustReject(src, want.Error())
		return out
	}
	r := newRecorder(c.Fwd)
	if _, err := parseRec(src, r); err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(src))
	}
	if r.bad != nil {
		return failf("%v\ndocument: %s", r.bad, show(src))
	}
	var got []Ev
	for _, e := range mergeEvText(r.evs) {
		switch {
		case e.K == "decl" && e.Decl.K != "ent" && e.Decl.K != "pent":
		case e.K == "decl", e.K == "text", e.K == "start", e.K == "end", e.K == "ref":
			e.URI = ""
			got = append(got, e)
		}
	}
	if a, b := evLines(mergeEvText(m.evs)), evLines(got); a != b {
		return failf("wrong events (passed on: %v): %s\ndocument: %s", c.Fwd, diffLines(a, b), show(src))
	}
	// the tree
	doc, err := helium.Parse(src)
	if err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(src))
	}
	root, ok := doc.FirstChild().(*helium.Element)
	for x := doc.FirstChild(); x != nil && !ok; x = x.NextSibling() {
		root, ok = x.(*helium.Element)
	}
	if !ok {
		return failf("no root element: %s", show(src))
	}
	kids, err := domKids(root, 0)
	if err != nil {
		return failf("%v: %s", err, show(src))
	}
	y := &N{K: KElem, Name: "a", Kids: kids}
	x := &N{K: KElem, Name: "a"}
	add := func(s string) {
		if n := len(x.Kids); n > 0 && x.Kids[n-1].K == KText {
			x.Kids[n-1].Text += s
		} else if s != "" {
			x.Kids = append(x.Kids, &N{K: KText, Text: s})
		}
	}
	for s := c.Text; s != ""; {
		i := strings.IndexByte(s, '&')
		if i < 0 {
			add(s)
			break
		}
		add(s[:i])
		var n string
		n, s = cutRef(s[i:])
		if p, ok := predef[n]; ok {
			add(p)
		} else {
			x.Kids = append(x.Kids, &N{K: KRef, Name: n})
		}
	}
	if a, b := (&Doc{Root: x}).canon(canonOpt{noDecl: true}), (&Doc{Root: y}).canon(canonOpt{noDecl: true}); a != b {
		return failf("wrong tree: %s\ndocument: %s", diffLines(a, b), show(src))
	}
	as := root.Attributes()
	if len(as) != 1 || as[0].Name() != "v" {
		return failf("%d attributes: %s", len(as), show(src))
	}
	for n, s := range m.ents {
		e, ok := doc.GetEntity(n)
		if !ok || string(e.Content()) != s {
			return failf("entity %s should be %q: %s", n, s, show(src))
		}
	}
	for n, s := range m.pents {
		e, ok := doc.GetParameterEntity(n)
		if !ok || string(e.Content()) != s {
			return failf("parameter entity %s should be %q: %s", n, s, show(src))
		}
	}
	for _, n := range peNames {
		if _, ok := m.ents[n]; !ok {
			if e, ok := doc.GetEntity(n); ok && e != nil {
				return failf("there should be no entity %s: %s", n, show(src))
			}
		}
		if _, ok := m.pents[n]; !ok {
			if e, ok := doc.GetParameterEntity(n); ok && e != nil {
				return failf("there should be no parameter entity %s: %s", n, show(src))
			}
		}
	}
	return out
}

// ---- references in places where there are none ----

// a template with a reference at the @
var pePlaces = []struct {
	Subset string
	Plain  bool   // it is not a reference there
	As     string // what would fit there
}{
	{"<!ELEMENT @ ANY>", false, "b"}, {"<!ELEMENT b @>", false, "ANY"}, {"<!ELEMENT @>", false, "b ANY"}, {"<!@>", false, "ELEMENT b ANY"},
	{"<!ELEMENT b (@)>", false, "c"}, {"<!ELEMENT b (c,@)>", false, "d"}, {"<!ELEMENT b (c|@|d)>", false, "e"}, {"<!ELEMENT b (#PCDATA|@)*>", false, "e"}, {"<!ELEMENT b (c)@>", false, "*"}, {"<!ELEMENT b (c@)>", false, ",d"}, {"<!ELEMENT b EMPTY @>", false, " "}, {"<!ELEMENT b (@)*>", false, "#PCDATA"},
	{"<!ATTLIST @>", false, "b c CDATA #IMPLIED"}, {"<!ATTLIST @ c CDATA #IMPLIED>", false, "b"}, {"<!ATTLIST b @>", false, "c CDATA #IMPLIED"}, {"<!ATTLIST b @ CDATA #IMPLIED>", false, "c"}, {"<!ATTLIST b c @ #IMPLIED>", false, "CDATA"}, {"<!ATTLIST b c CDATA @>", false, "#IMPLIED"}, {"<!ATTLIST b c CDATA #FIXED @>", false, "'x'"}, {"<!ATTLIST b c (@) #IMPLIED>", false, "x"}, {"<!ATTLIST b c (x|@) #IMPLIED>", false, "y"}, {"<!ATTLIST b c NOTATION @ #IMPLIED>", false, "(x)"}, {"<!ATTLIST b c NOTATION (@) #IMPLIED>", false, "x"}, {"<!ATTLIST b c NOTATION (x|@) #IMPLIED>", false, "y"}, {"<!ATTLIST b c CDATA #IMPLIED @>", false, "d CDATA #IMPLIED"},
	{"<!ENTITY @ 'x'>", false, "b"}, {"<!ENTITY @>", false, "b 'x'"}, {"<!ENTITY b @>", false, "'x'"}, {"<!ENTITY % @ 'x'>", false, "b"}, {"<!ENTITY % b @>", false, "'x'"}, {"<!ENTITY b 'x' @>", false, " "},
	{"<!-@- x -->", false, ""}, {"<?@?>", false, "x"}, {"<@", false, "!ELEMENT b ANY>"},
	{"<!ATTLIST b c CDATA 'x@y'>", true, "z"}, {"<!ATTLIST b c CDATA #FIXED '@'>", true, "z"}, {"<!-- @ -->", true, "-->"}, {"<!--@-->", true, "x"}, {"<?x @?>", true, "?>"}, {"<!-- x -->", true, "x"},
}

// templates for the whole document: $ is the declaration
var peDocs = []struct {
	Src   string
	Plain bool
	As    string
}{
	{"<!DOCTYPE a [$]><a>@</a>", true, "<b/>"}, {"<!DOCTYPE a [$]><a v='@'/>", true, "x"}, {"<!DOCTYPE a [$]><a><!--@--></a>", true, "x"}, {"<!DOCTYPE a [$]><a><?x @?></a>", true, "x"}, {"<!DOCTYPE a [$]><a><![CDATA[@]]></a>", true, "]]>"}, {"<!DOCTYPE a [$]><a/><!--@-->", true, "x"},
	{"<!DOCTYPE a [$]>@<a/>", false, " "}, {"<!DOCTYPE a [$]><a/>@", false, " "}, {"<!DOCTYPE a [$]@><a/>", false, " "}, {"<!DOCTYPE a [$]><@/>", false, "a"}, {"<!DOCTYPE a [$]><a @/>", false, "b='c'"}, {"<!DOCTYPE a [$]><a b=@/>", false, "'c'"}, {"<!DOCTYPE a [$]><a></@>", false, "a"}, {"<!DOCTYPE a [$]><a></a @>", false, " "}, {"@<!DOCTYPE a [$]><a/>", false, " "}, {"<!DOCTYPE @ [$]><a/>", false, "a"}, {"<!DOCTYPE a @[$]><a/>", false, " "}, {"@<a/>", false, " "}, {"<a/>@", false, " "}, {"<a>&@;</a>", false, "lt"}, {"<a>&#@;</a>", false, "65"}, {"<!DOCTYPE a [$]><a>&@;</a>", false, "lt"},
}

type pePlace struct {
	Name   string
	Ref    string
	Place  int
	Before string
	After  string
}

func checkPEPlace(c pePlace) Out {
	var src, subset, as string
	var plain bool
	var place string
	if c.Place < len(pePlaces) {
		x := pePlaces[c.Place]
		place, plain, as = x.Subset, x.Plain, x.As
		src, subset = "<!DOCTYPE a [$]><a/>", strings.Replace(place, "@", c.Ref, 1)
	} else {
		x := peDocs[c.Place-len(pePlaces)]
		place, plain, as = x.Src, x.Plain, x.As
		src = strings.Replace(place, "@", c.Ref, 1)
	}
	src = strings.Replace(src, "$", c.Before+"<!ENTITY % "+c.Name+` "`+strings.Replace(as, "<", "&#60;", -1)+`">`+c.After+subset, 1)
	out := Out{Sample: src, NonTrivial: true, Labels: []string{fmt.Sprintf("plain: %v", plain)}}
	if !plain {
		out.Err = mustReject([]byte(src), "a parameter entity reference at the @ of "+place)
		return out
	}
	// the same without the reference
	const word = "Word"
	other := strings.Replace(src, c.Ref, word, -1)
	// the reference may be used where it counts, too
	for _, s := range []string{c.Before, c.After} {
		if strings.Contains(s, c.Ref) {
			return out
		}
	}
	var evs [2]string
	for i, s := range []string{src, other} {
		r := newRecorder(true)
		if _, err := parseRec([]byte(s), r); err != nil {
			return failf("rejected: %v\ndocument: %s", err, show([]byte(s)))
		}
		evs[i] = evLines(mergeEvText(r.evs))
	}
	if a, b := evs[0], strings.Replace(evs[1], word, strings.Trim(q(c.Ref), `"`), -1); a != b {
		out.Err = errorf("%s is not plain text: %s\ndocument: %s", c.Ref, diffLines(b, a), show([]byte(src)))
	}
	return out
}

func init() {
	prop("P23", "the document refers to a parameter entity, or it is to be rejected because of an entity that is missing or refers to itself")
	reg("P23", "entities", 30000, 2000000, genPECase, checkPE)
	reg("P23", "places", 3000, 100000, func(t *rapid.T) pePlace {
		c := pePlace{Name: strings.Replace(genNCName(t), "-", "_", -1), Place: uni(t, len(pePlaces)+len(peDocs))}
		c.Ref = "%" + c.Name + ";"
		for _, s := range []*string{&c.Before, &c.After} {
			for n := ri(t, 0, 2); n > 0; n-- {
				*s += pick(t, []string{"\n", " ", "<!-- x -->", "<!ENTITY % y ' '>%y;", "<!ELEMENT z ANY>", "<?x y?>", "<!ENTITY k 'z'>"})
			}
		}
		return c
	}, checkPEPlace)
}
