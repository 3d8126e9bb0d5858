package props

import (
	"bytes"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"pgregory.net/rapid"
)

// P03: parsing any byte sequence terminates cleanly.

// exercise parses src in all ways and uses what it gets
func exercise(src []byte, ways int) (ok bool, err error) {
	in := append([]byte(nil), src...)
	doc, perr := helium.Parse(in)
	if !bytes.Equal(in, src) {
		return false, errorf("the input was modified: %s", show(src))
	}
	if (doc == nil) == (perr == nil) {
		return false, errorf("document %v with error %v for %s", doc != nil, perr, show(src))
	}
	if perr != nil {
		_ = perr.Error()
	}
	if doc != nil {
		ok = true
		n := 0
		if werr := helium.Walk(doc, func(x helium.Node) error {
			n++
			_, _, _ = x.Name(), x.Type(), x.OwnerDocument()
			if n > 50000000 {
				return errors.New("endless")
			}
			return nil
		}); werr != nil {
			return ok, errorf("walking: %v for %s", werr, show(src))
		}
		if _, derr := doc.XMLString(); derr != nil {
			// not every document can be written (recorded elsewhere),
			// but it must not panic
			_ = derr
		}
		if r := doc.FirstChild(); r != nil {
			_, _ = dumpNode(r)
		}
	}
	if ways > 1 {
		d, e := parseRec(src, newRecorder(true))
		if (d != nil) != ok || (e == nil) != ok {
			return ok, errorf("a handler that passes everything on to the tree builder gets another result: %v instead of %v for %s", e, perr, show(src))
		}
	}
	if ways > 2 {
		_, _ = parseRec(src, newRecorder(false))
		_, _ = parseRec(src, sax.New())
	}
	return ok, nil
}

func genBytes(t *rapid.T) []byte {
	switch ri(t, 0, 9) {
	case 0:
		n := ri(t, 0, 40)
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(ri(t, 0, 255))
		}
		return b
	case 1: // only what means something
		var b []byte
		for n := ri(t, 0, 30); n > 0; n-- {
			b = append(b, pick(t, tokens)...)
		}
		return b
	case 2, 3: // damaged documents
		b := genSource(t)
		for n := ri(t, 1, 4); n > 0 && len(b) > 0; n-- {
			i := uni(t, len(b))
			switch ri(t, 0, 3) {
			case 0:
				b[i] = byte(ri(t, 0, 255))
			case 1:
				b = append(b[:i], b[i+1:]...)
			case 2:
				b[i] ^= 1 << uint(ri(t, 0, 7))
			default:
				b = append(b[:i], append([]byte{byte(ri(t, 0, 255))}, b[i:]...)...)
			}
		}
		return b
	case 4: // truncated
		b := spell(t, genDoc(t, GenOpt{MaxElems: 6}))
		return b[:uni(t, len(b)+1)]
	case 5: // looks like another encoding
		b := genSource(t)
		switch ri(t, 0, 3) {
		case 0:
			var r []byte
			be := rb(t)
			for _, x := range b {
				if be {
					r = append(r, 0, x)
				} else {
					r = append(r, x, 0)
				}
			}
			b = r
			if be {
				b = append([]byte{0xFE, 0xFF}, b...)
			} else {
				b = append([]byte{0xFF, 0xFE}, b...)
			}
			if chance(t, 1, 2) {
				b = b[:uni(t, len(b)+1)]
			}
		case 1:
			b = append([]byte{0xEF, 0xBB, 0xBF}, b...)
		case 2:
			b = append(pick(t, [][]byte{{0, 0, 0, 0x3C}, {0x3C, 0, 0, 0}, {0, 0x3C, 0, 0x3F}, {0x3C, 0, 0x3F, 0}, {0x4C, 0x6F, 0xA7, 0x94}, {0, 0, 0xFE, 0xFF}, {0xFF, 0xFE, 0, 0}, {0xEF, 0xBB}, {0xFE, 0xFF}, {0xFF, 0xFE, 0x3C}}), b...)
		default:
			b = []byte(fmt.Sprintf("<?xml version='1.0' encoding='%s'?>%s", pick(t, append(encNames, "x", "utf-7", "ucs4", "ebcdic", "UTF-16", "iso-2022-kr", "")), b))
		}
		return b
	case 6: // a broken fragment
		c := genBroken(t)
		return mutate(t, c.Src, ri(t, 0, 2))
	default:
		return genSource(t)
	}
}

// ---- entity graphs ----

// entGraph is a set of entities that refer to each other
type entGraph struct {
	Texts []string
	Use   string   // content of the root
	Att   string   // attribute of the root
	Def   string   // default of an attribute
	PEs   []string `json:",omitempty"` // parameter entities
	PERef string   `json:",omitempty"` // references to them between the declarations
}

func entName(i int) string { return fmt.Sprintf("n%d", i) }

func (g *entGraph) source() []byte {
	var b strings.Builder
	b.WriteString("<!DOCTYPE a [\n")
	for i, s := range g.PEs {
		fmt.Fprintf(&b, "<!ENTITY %% p%d '%s'>\n", i, s)
	}
	b.WriteString(g.PERef)
	for i, s := range g.Texts {
		fmt.Fprintf(&b, "<!ENTITY %s %q>\n", entName(i), s)
	}
	if g.Def != "" {
		fmt.Fprintf(&b, "<!ATTLIST a d CDATA \"%s\">\n", g.Def)
	}
	b.WriteString("]>\n<a")
	if g.Att != "" {
		fmt.Fprintf(&b, " x=\"%s\"", g.Att)
	}
	b.WriteString(">" + g.Use + "</a>\n")
	return []byte(b.String())
}

func genEntGraph(t *rapid.T) entGraph {
	g := entGraph{}
	n := ri(t, 1, 14)
	style := ri(t, 0, 3) // 0: any, 1: earlier only, 2: later only, 3: layers
	refs := func(i, max int) string {
		var b strings.Builder
		for k := ri(t, 0, max); k > 0; k-- {
			switch ri(t, 0, 4) {
			case 0:
				b.WriteString(pick(t, []string{"x", "&lt;", "<b>y</b>", "<b/>", "&#38;", " ", "<b x='&n0;'/>", "&#38;n0;", "&#38;#38;", "]]&gt;", "&#60;b/>", "<!--&n0;-->", "<![CDATA[&n0;]]>", "<?p &n0;?>"}))
			default:
				j := uni(t, n)
				switch style {
				case 1:
					if i == 0 {
						continue
					}
					j = uni(t, i)
				case 2:
					if i+1 >= n {
						continue
					}
					j = i + 1 + uni(t, n-i-1)
				case 3:
					j = i + 1
					if j >= n {
						b.WriteString("x")
						continue
					}
				}
				b.WriteString("&" + entName(j) + ";")
			}
		}
		return b.String()
	}
	max := 3
	if chance(t, 1, 3) {
		max = 12
	}
	for i := 0; i < n; i++ {
		g.Texts = append(g.Texts, refs(i, max))
	}
	if style == 3 && chance(t, 1, 4) {
		// a long chain
		n = ri(t, 15, 120)
		g.Texts = nil
		for i := 0; i < n; i++ {
			g.Texts = append(g.Texts, refs(i, 2))
		}
	}
	style = 0
	for k := ri(t, 0, 4); k > 0; k-- {
		g.Use += "&" + entName(uni(t, n)) + ";"
	}
	if rb(t) {
		g.Att = "&" + entName(uni(t, n)) + ";"
	}
	if chance(t, 1, 3) {
		g.Def = "&" + entName(uni(t, n)) + ";"
	}
	return g
}

// genPEGraph adds parameter entities
func genPEGraph(t *rapid.T) entGraph {
	g := genEntGraph(t)
	if !chance(t, 1, 3) {
		return g
	}
	if chance(t, 1, 5) { // layers, the last of which is expanded
		base := pick(t, []string{"", "", "x", "&#38;n0;", "<!--x-->"})
		g.PEs = append(g.PEs, base)
		f := ri(t, 1, 4)
		for i, k := 0, ri(t, 2, 45); i < k; i++ {
			s := strings.Repeat(pick(t, []string{"&#37;p%d;", "&#37;p%d;", "%%p%d;", "&#38;#37;p%d;"}), f)
			s = strings.NewReplacer("%%", "%", "%d", fmt.Sprint(i)).Replace(s)
			g.PEs = append(g.PEs, s)
		}
		last := fmt.Sprintf("%%p%d;", len(g.PEs)-1)
		if rb(t) {
			g.PEs = append(g.PEs, last)
		}
		if rb(t) {
			g.PERef = last
		}
		g.Texts = append(g.Texts, last)
		return g
	}
	n := ri(t, 1, 6)
	ref := func(max int) string {
		var b strings.Builder
		for k := ri(t, 0, max); k > 0; k-- {
			switch ri(t, 0, 5) {
			case 0:
				b.WriteString(pick(t, []string{"x", "&n0;", "&#38;n0;", "<!ENTITY n0 \"y\">", "<!ATTLIST a y CDATA \"&n0;\">", "&#37;", "%", "&#37;p", "%p0", "%;", "&#37;;", "<!-- &#37;p0; -->", " "}))
			case 1, 2:
				b.WriteString("&#37;p" + fmt.Sprint(uni(t, n)) + ";")
			case 3:
				b.WriteString("&#x25;p" + fmt.Sprint(uni(t, n)) + ";")
			case 4:
				b.WriteString("&#38;#37;p" + fmt.Sprint(uni(t, n)) + ";")
			default:
				b.WriteString("%p" + fmt.Sprint(uni(t, n)) + ";")
			}
		}
		return b.String()
	}
	for i := 0; i < n; i++ {
		s := ref(pick(t, []int{2, 2, 3, 8}))
		if rb(t) { // a value may not contain a reference to it
			s = strings.Replace(s, "%", "&#37;", -1)
		}
		g.PEs = append(g.PEs, s)
	}
	for k := ri(t, 0, 3); k > 0; k-- {
		g.PERef += "%p" + fmt.Sprint(uni(t, n)) + ";\n"
	}
	if len(g.Texts) > 0 && rb(t) {
		s := ref(3)
		if chance(t, 3, 4) {
			s = strings.Replace(s, "%", "&#37;", -1)
		}
		g.Texts[uni(t, len(g.Texts))] += strings.Replace(s, "\"", "'", -1)
	}
	return g
}

// ---- large inputs ----

func rep(s string, n int) string {
	if n < 0 {
		n = 0
	}
	return strings.Repeat(s, n)
}

// count the units that make a part of about n bytes
func units(n int, unit string) int { return n/len(unit) + 1 }

func seqOf(n int, f func(i int) string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		b.WriteString(f(i))
	}
	return b.String()
}

func joinOf(n int, sep string, f func(i int) string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		if i > 0 {
			b.WriteString(sep)
		}
		b.WriteString(f(i))
	}
	return b.String()
}

type bigKind struct {
	name string
	f    func(n int) string
}

func num(pre string) func(i int) string {
	return func(i int) string { return fmt.Sprintf("%s%d", pre, i) }
}

// content that is much of one thing
var bigContent = []bigKind{
	{"text", func(n int) string { return rep("text ", n/5) }},
	{"one char", func(n int) string { return rep("x", n) }},
	{"blanks", func(n int) string { return rep(" ", n) }},
	{"lines", func(n int) string { return rep("\n", n) }},
	{"CR", func(n int) string { return rep("\r", n) }},
	{"CRLF", func(n int) string { return rep("\r\n", n/2) }},
	{"predefined", func(n int) string { return rep("&amp;", n/5) }},
	{"charrefs", func(n int) string { return rep("&#65;", n/5) }},
	{"long charref", func(n int) string { return "&#" + rep("0", n) + "65;" }},
	{"bad charref", func(n int) string { return "&#" + rep("9", n) + ";" }},
	{"brackets", func(n int) string { return rep("]]", n/2) + "x" }},
	{"gt", func(n int) string { return rep(">", n) }},
	{"flat", func(n int) string { return rep("<b/>", n/4) }},
	{"flat pairs", func(n int) string { return rep("<b></b>", n/7) }},
	{"flat with text", func(n int) string { return rep("<b/>t", n/5) }},
	{"flat with blanks", func(n int) string { return rep("<b/>\n ", n/6) }},
	{"comments", func(n int) string { return rep("<!--x-->", n/8) }},
	{"long comment", func(n int) string { return "<!--" + rep("x- ", n/3) + "-->" }},
	{"pis", func(n int) string { return rep("<?p x?>", n/7) }},
	{"long pi", func(n int) string { return "<?p " + rep("?x", n/2) + "?>" }},
	{"long target", func(n int) string { return "<?" + rep("p", n) + "?>" }},
	{"cdatas", func(n int) string { return rep("<![CDATA[x]]>", n/13) }},
	{"empty cdatas", func(n int) string { return rep("<![CDATA[]]>", n/12) }},
	{"long cdata", func(n int) string { return "<![CDATA[" + rep("]]x", n/3) + "]]>" }},
	{"cdata text mix", func(n int) string { return rep("a<![CDATA[x]]>", n/14) }},
	{"long name", func(n int) string { s := rep("n", n/2); return "<" + s + "></" + s + ">" }},
	{"near names", func(n int) string { s := rep("n", 40000); return "<" + s + "></" + s + ">" }},
	{"colons", func(n int) string { return "<" + rep("a:", n/2) + "/>" }},
	{"attributes", func(n int) string {
		return "<b " + joinOf(n, " ", func(i int) string { return fmt.Sprintf("x%d='1'", i) }) + "/>"
	}},
	{"same attributes", func(n int) string { return "<b " + rep("x='1' ", n/6) + "/>" }},
	{"long value", func(n int) string { return "<b x='" + rep("v ", n/2) + "'/>" }},
	{"refs in value", func(n int) string { return "<b x='" + rep("&lt;", n/4) + "'/>" }},
	{"blanks in tag", func(n int) string { return "<b" + rep(" ", n) + "/>" }},
	{"blanks in end tag", func(n int) string { return "<b></b" + rep("\n", n) + ">" }},
	{"namespaces", func(n int) string {
		return "<b " + joinOf(n, " ", func(i int) string { return fmt.Sprintf("xmlns:x%d='u'", i) }) + "/>"
	}},
	{"same namespaces", func(n int) string { return "<b " + rep("xmlns:x='u' ", n/12) + "/>" }},
	{"nested namespaces", func(n int) string {
		k := n / 40
		if k > 3000 {
			k = 3000
		}
		return seqOf(k*22, func(i int) string { return fmt.Sprintf("<b xmlns:x%d='u%d'>", i, i) }) + ""
	}},
	{"elements with attributes", func(n int) string { return rep("<b x='1' y='2'>t</b>", n/20) }},
	{"deep", func(n int) string { return rep("<b>", n/3) }},
	{"deep balanced", func(n int) string { return rep("<b>", n/7) + rep("</b>", n/7) }},
	{"deep 3000", func(n int) string { return rep(rep("<b>", 3000)+rep("</b>", 3000), n/21000+1) }},
	{"deep with namespaces", func(n int) string { return rep("<p:b xmlns:p='u'>", 2000) + rep("</p:b>", 2000) }},
	{"deep attributes", func(n int) string { return rep("<b x='1'>", n/9) }},
	{"open tags", func(n int) string { return rep("<", n) }},
	{"amps", func(n int) string { return rep("&", n) }},
	{"bangs", func(n int) string { return rep("<!", n/2) }},
	{"doctypes", func(n int) string { return rep("<!DOCTYPE", n/9) }},
	{"nonascii", func(n int) string { return rep("é日", n/5) }},
	{"nuls", func(n int) string { return rep("\x00", n) }},
	{"bad utf8", func(n int) string { return rep("\xff", n) }},
	{"entities", func(n int) string { return rep("&e;", n/3) }},
	{"entities in values", func(n int) string { return "<b x='" + rep("&e;", n/3) + "'/>" }},
	{"markup entities", func(n int) string { return rep("&m;", n/30) }},
	{"unterminated comment", func(n int) string { return "<!--" + rep("<!--", n/4) }},
	{"unterminated cdata", func(n int) string { return "<![CDATA[" + rep("]]", n/2) }},
	{"unterminated pi", func(n int) string { return "<?p " + rep("? ", n/2) }},
	{"unterminated value", func(n int) string { return "<b x='" + rep("x", n) }},
	{"unterminated name", func(n int) string { return "<" + rep("x", n) }},
	{"default on many", func(n int) string { return rep("<d/>", n/4) }},
}

// internal subsets that are much of one thing
var bigSubset = []bigKind{
	{"seq", func(n int) string { return "<!ELEMENT b (" + joinOf(n, ",", num("x")) + ")>" }},
	{"choice", func(n int) string { return "<!ELEMENT b (" + joinOf(n, "|", num("x")) + ")>" }},
	{"mixed", func(n int) string { return "<!ELEMENT b (#PCDATA|" + joinOf(n, "|", num("x")) + ")*>" }},
	{"same mixed", func(n int) string { return "<!ELEMENT b (#PCDATA|" + rep("x|", n/2) + "x)*>" }},
	{"parens", func(n int) string { return "<!ELEMENT b " + rep("(", n) }},
	{"parens balanced", func(n int) string { return "<!ELEMENT b " + rep("(", n/2) + "x" + rep(")", n/2) + ">" }},
	{"parens 100", func(n int) string {
		return seqOf(n, func(i int) string { return fmt.Sprintf("<!ELEMENT b%d %sx%s>", i, rep("(", 100), rep(")", 100)) })
	}},
	{"groups", func(n int) string {
		return "<!ELEMENT b (" + joinOf(n, ",", func(int) string { return "(a|b)*" }) + ")>"
	}},
	{"elements", func(n int) string {
		return seqOf(n, func(i int) string { return fmt.Sprintf("<!ELEMENT b%d ANY>", i) })
	}},
	{"same elements", func(n int) string { return rep("<!ELEMENT b ANY>", n/16) }},
	{"attlists", func(n int) string {
		return seqOf(n, func(i int) string { return fmt.Sprintf("<!ATTLIST b%d x CDATA 'v'>", i) })
	}},
	{"attlist", func(n int) string {
		return "<!ATTLIST b " + joinOf(n, " ", func(i int) string { return fmt.Sprintf("x%d CDATA 'v'", i) }) + ">"
	}},
	{"attlist tokens", func(n int) string {
		return "<!ATTLIST a " + joinOf(n, " ", func(i int) string { return fmt.Sprintf("x%d NMTOKENS ' v  w'", i) }) + ">"
	}},
	{"same attlist", func(n int) string { return "<!ATTLIST b " + rep("x CDATA 'v' ", n/12) + ">" }},
	{"defaults", func(n int) string {
		return "<!ATTLIST d " + joinOf(200, " ", func(i int) string { return fmt.Sprintf("x%d CDATA 'v'", i) }) + ">"
	}},
	{"enumeration", func(n int) string { return "<!ATTLIST b x (" + joinOf(n, "|", num("x")) + ") 'x0'>" }},
	{"long default", func(n int) string { return "<!ATTLIST b x NMTOKENS '" + rep(" x", n/2) + "'>" }},
	{"entity decls", func(n int) string { return seqOf(n, func(i int) string { return fmt.Sprintf("<!ENTITY e%d 'x'>", i) }) }},
	{"same entity", func(n int) string { return rep("<!ENTITY e 'x'>", n/15) }},
	{"entity chain", func(n int) string {
		return seqOf(n, func(i int) string { return fmt.Sprintf("<!ENTITY c%d '&c%d;'>", i, i+1) })
	}},
	{"entity chain up", func(n int) string {
		return "<!ENTITY c0 'x'>" + seqOf(n, func(i int) string { return fmt.Sprintf("<!ENTITY c%d '&c%d;'>", i+1, i) })
	}},
	{"long entity", func(n int) string { return "<!ENTITY l '" + rep("x", n) + "'>" }},
	{"long entity refs", func(n int) string { return "<!ENTITY l '" + rep("&#38;", n/5) + "'>" }},
	{"long entity ents", func(n int) string { return "<!ENTITY l '" + rep("&e;", n/3) + "'>" }},
	{"parameter entities", func(n int) string {
		return seqOf(n, func(i int) string { return fmt.Sprintf("<!ENTITY %% e%d 'x'>", i) })
	}},
	{"pe references", func(n int) string { return "<!ENTITY % e 'x'>" + rep("%e;", n/3) }},
	{"pe chain", func(n int) string {
		return "<!ENTITY % e0 'x'>" + seqOf(n, func(i int) string { return fmt.Sprintf("<!ENTITY %% e%d '%%e%d;'>", i+1, i) })
	}},
	{"blanks", func(n int) string { return rep(" ", n) }},
	{"comments", func(n int) string { return rep("<!--x-->", n/8) }},
	{"pis", func(n int) string { return rep("<?p x?>", n/7) }},
	{"long decl name", func(n int) string { return "<!ELEMENT " + rep("x", n) + " ANY>" }},
	{"many blanks in decl", func(n int) string { return "<!ELEMENT b" + rep(" ", n) + "ANY>" }},
	{"brackets", func(n int) string { return rep("[", n) }},
	{"open decls", func(n int) string { return rep("<!ELEMENT b (", n/13) }},
	{"open attlists", func(n int) string { return rep("<!ATTLIST b ", n/12) }},
	{"conditional", func(n int) string { return rep("<![INCLUDE[", n/11) }},
}

var bigTop = []bigKind{
	{"version", func(n int) string { return "<?xml version='1." + rep("0", n) + "'?><a/>" }},
	{"encoding name", func(n int) string { return "<?xml version='1.0' encoding='u" + rep("t", n) + "'?><a/>" }},
	{"blanks in declaration", func(n int) string { return "<?xml version='1.0'" + rep(" ", n) + "?><a/>" }},
	{"standalone", func(n int) string { return "<?xml version='1.0' standalone='" + rep("y", n) + "'?><a/>" }},
	{"comments before", func(n int) string { return rep("<!--x-->", n/8) + "<a/>" }},
	{"blanks before", func(n int) string { return rep("\n", n) + "<a/>" }},
	{"pis after", func(n int) string { return "<a/>" + rep("<?p x?>", n/7) }},
	{"blanks after", func(n int) string { return "<a/>" + rep(" ", n) }},
	{"doctype name", func(n int) string { return "<!DOCTYPE " + rep("a", n) + "><a/>" }},
	{"blanks in doctype", func(n int) string { return "<!DOCTYPE a" + rep(" ", n) + "><a/>" }},
	{"utf16", func(n int) string { return "\xff\xfe" + rep("<\x00a\x00>\x00", n/6) }},
	{"utf16 text", func(n int) string { return "\xff\xfe<\x00a\x00>\x00" + rep("x\x00", n/2) + "<\x00/\x00a\x00>\x00" }},
	{"latin1", func(n int) string { return "<?xml version='1.0' encoding='iso-8859-1'?><a>" + rep("\xe9", n) + "</a>" }},
	{"sjis", func(n int) string {
		return "<?xml version='1.0' encoding='shift_jis'?><a>" + rep("\x82\xa0", n/2) + "</a>"
	}},
	{"not xml", func(n int) string { return rep("x", n) }},
	{"laughs", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 'ha'>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "]><a>&x34;</a>"
	}},
	{"laughs in value", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 'ha'>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "]><a x='&x34;'/>"
	}},
	{"laughs in default", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 'ha'>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "<!ATTLIST a x CDATA '&x34;'>]><a/>"
	}},
	{"laughs with markup", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 '<b/>'>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;<c>&x%d;</c>'>", i, i-1, i-1)
		}
		return s + "]><a>&x34;</a>"
	}},
	{"parameter laughs", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY % x0 'ha'>"
		for i := 1; i < 38; i++ {
			s += fmt.Sprintf("<!ENTITY %% x%d '%%x%d;%%x%d;'>", i, i-1, i-1)
		}
		return s + "<!ENTITY y '%x37;'>]><a>&y;</a>"
	}},
	{"late parameter laughs", func(n int) string {
		// the references become references only where they are expanded
		s := "<!DOCTYPE a [<!ENTITY % x0 'ha'>"
		for i := 1; i < 38; i++ {
			s += fmt.Sprintf("<!ENTITY %% x%d '&#37;x%d;&#37;x%d;'>", i, i-1, i-1)
		}
		return s + "<!ENTITY y '%x37;'>]><a>&y;</a>"
	}},
	{"laughs about nothing", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY % x0 ''>"
		for i := 1; i < 38; i++ {
			s += fmt.Sprintf("<!ENTITY %% x%d '&#37;x%d;&#37;x%d;'>", i, i-1, i-1)
		}
		return s + "<!ENTITY y '%x37;'>]><a>&y;</a>"
	}},
	{"parameter blowup", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY % x '" + rep("x", n/2) + "'><!ENTITY y '" + rep("%x;", n/6) + "'>]><a>&y;</a>"
	}},
	{"parameter blowup by values", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY % x '" + rep("x", n/2) + "'>" + seqOf(n/2, func(i int) string { return fmt.Sprintf("<!ENTITY y%d '%%x;'>", i) }) + "]><a>&y1;</a>"
	}},
	{"laughs in namespace name", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 'ha'>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "]><a xmlns='&x34;'/>"
	}},
	{"laughs about nothing in namespace name", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 ''>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "]><a xmlns:p='&x34;u'/>"
	}},
	{"blowup in namespace names", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY x '" + rep("x", n/2) + "'>]><a>" + rep("<b xmlns='&x;'/>", n/32) + "</a>"
	}},
	{"silent laughs", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 ''>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "]><a x='&x34;'>&x34;</a>"
	}},
	{"silent laughs in default", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 ''>"
		for i := 1; i < 35; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '&x%d;&x%d;'>", i, i-1, i-1)
		}
		return s + "<!ATTLIST a x CDATA '&x34;'>]><a/>"
	}},
	{"quadratic blowup", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY x '" + rep("x", n/2) + "'>]><a>" + rep("&x;", n/6) + "</a>"
	}},
	{"quadratic blowup in value", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY x '" + rep("x", n/2) + "'>]><a x='" + rep("&x;", n/6) + "'/>"
	}},
	{"recursive entities", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY x '&y;&y;'><!ENTITY y '&x;&x;'>]><a>&x;</a>"
	}},
	{"recursive through markup", func(n int) string {
		return "<!DOCTYPE a [<!ENTITY x '<b>&y;</b>&y;'><!ENTITY y '<c z=\"&#38;x;\">&x;</c>'>]><a>&x;</a>"
	}},
	{"deep through entities", func(n int) string {
		s := "<!DOCTYPE a [<!ENTITY x0 'x'>"
		for i := 1; i < 30; i++ {
			s += fmt.Sprintf("<!ENTITY x%d '%s&x%d;%s'>", i, rep("<b>", 1000), i-1, rep("</b>", 1000))
		}
		return s + "]><a>&x29;</a>"
	}},
}

type bigCase struct {
	Subset, Content, Top string // kinds
	N                    int
}

func kindOf(l []bigKind, name string) func(int) string {
	for _, k := range l {
		if k.name == name {
			return k.f
		}
	}
	return func(int) string { return "" }
}

func (c bigCase) source() []byte {
	if c.Top != "" {
		return []byte(kindOf(bigTop, c.Top)(c.N))
	}
	s := "<!DOCTYPE a [<!ENTITY e 'x'><!ENTITY m '<b>&e;</b>'>\n"
	if c.Subset != "" {
		s += kindOf(bigSubset, c.Subset)(c.N)
	}
	s += "\n]>\n<a>"
	if c.Content != "" {
		s += kindOf(bigContent, c.Content)(c.N)
	} else {
		s += "&e;<d/>"
	}
	if c.Content == "nested namespaces" {
		k := strings.Count(s, "<b xmlns:")
		s += rep("</b>", k)
	}
	return []byte(s + "</a>\n")
}

func init() {
	prop("P03", "bytes: the input is longer than 10 bytes; entities: at least 2 entities and a reference; scale: the input is longer than 50 kB")

	reg("P03", "bytes", 40000, 2500000,
		func(t *rapid.T) srcCase { return srcCase{genBytes(t)} },
		func(c srcCase) Out {
			out := Out{NonTrivial: len(c.Src) > 10, Sample: show(c.Src)}
			ok, err := exercise(c.Src, 3)
			out.Err = err
			if ok {
				out.Labels = append(out.Labels, "accepted")
			} else {
				out.Labels = append(out.Labels, "rejected")
			}
			return out
		}).maxCPU = 6 * time.Second

	reg("P03", "entities", 6000, 150000, genPEGraph,
		func(c entGraph) Out {
			src := c.source()
			out := Out{NonTrivial: len(c.Texts) > 1 && c.Use+c.Att+c.Def != "", Sample: string(src)}
			ok, err := exercise(src, 3)
			out.Err = err
			if ok {
				out.Labels = append(out.Labels, "accepted")
			} else {
				out.Labels = append(out.Labels, "rejected")
			}
			return out
		}).maxCPU = 12 * time.Second

	reg("P03", "scale", 420, 6000,
		func(t *rapid.T) bigCase {
			c := bigCase{N: 1000 * pick(t, []int{150, 200, 250, 300})}
			if chance(t, 1, 20) {
				c.N = 1000 * ri(t, 1, 149)
			}
			switch ri(t, 0, 8) {
			case 0, 1:
				c.Top = bigTop[uni(t, len(bigTop))].name
			case 2, 3, 4:
				c.Subset = bigSubset[uni(t, len(bigSubset))].name
				if chance(t, 1, 4) {
					c.Content = bigContent[uni(t, len(bigContent))].name
					c.N /= 2
					if c.Subset == "attlist" && c.N > 40000 {
						// each of the elements gets all of the defaults
						c.N = 40000
					}
				}
			default:
				c.Content = bigContent[uni(t, len(bigContent))].name
			}
			return c
		},
		func(c bigCase) Out {
			src := c.source()
			out := Out{NonTrivial: len(src) > 50000, Sample: fmt.Sprintf("%+v: %d bytes, %s…", c, len(src), clip(string(src), 80))}
			ok, err := exercise(src, 1)
			out.Err = err
			if ok {
				out.Labels = append(out.Labels, "accepted")
			} else {
				out.Labels = append(out.Labels, "rejected")
			}
			return out
		}).maxCPU = 10 * time.Second
}
