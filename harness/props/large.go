package props

import (
	"fmt"
	"strings"
	"time"

	"pgregory.net/rapid"
)

// Large documents: one or two things of a document are large, the rest is
// small. What is large is not the same throughout, so that parts that are
// lost, repeated or exchanged show.

type largePart struct {
	K    string
	N    int // about so many bytes
	Seed int
	Huge bool // raises the bounds of what is counted
}

type largeCase struct {
	Parts []largePart
	CRLF  bool
}

var largeContent = []string{"text", "text", "cdata", "comment", "pi", "value", "attrs", "kids", "deep", "elemname", "attname", "target", "prefix", "uri", "nsdecls", "blanks", "charrefs", "refs", "mixed", "before", "after", "lines"}

var largeDTD = []string{"elements", "atts", "attlists", "enum", "seq", "choice", "mixedmodel", "nested", "tokens", "entity", "entityrefs", "default", "entities", "pentities", "dtdcomment", "dtdpi", "dtdblanks", "declname", "doctype"}

// genLargeSize draws sizes, often close to where buffers end
func genLargeSize(t *rapid.T, most int) int {
	n := 0
	switch ri(t, 0, 3) {
	case 0:
		n = pick(t, []int{255, 300, 1000, 4000, 10000, 32000, 50000, 100000})
	case 1:
		n = ri(t, 100, 5000)
	default:
		n = 1 << uint(ri(t, 7, 17))
	}
	n += ri(t, -40, 3)
	if n > most {
		n = most - ri(t, 0, 40)
	}
	return n
}

func genLarge(t *rapid.T, kinds []string, most int) largeCase {
	c := largeCase{CRLF: chance(t, 1, 6)}
	if chance(t, 1, 16) {
		c.Parts = []largePart{{pick(t, kinds), 5*most - ri(t, 0, 50000), ri(t, 0, 9), true}}
		return c
	}
	for i := ri(t, 1, 2); i > 0; i-- {
		c.Parts = append(c.Parts, largePart{pick(t, kinds), genLargeSize(t, most), ri(t, 0, 9), false})
	}
	return c
}

// largeText gives n bytes of words
func largeText(n, seed int, special []string) string {
	var b strings.Builder
	for i := 0; b.Len() < n; i++ {
		x := fmt.Sprintf("%d", i*7+seed)
		if len(special) > 0 && (i+seed)%11 == 0 {
			x = special[(i/11+seed)%len(special)]
		}
		if seed%2 == 0 || i%3 > 0 {
			x += " "
		}
		if b.Len()+len(x) > n {
			x = "................................................................"[:n-b.Len()]
		}
		b.WriteString(x)
	}
	return b.String()
}

// largeName gives a name of n characters
func largeName(n, seed int) string {
	s := strings.NewReplacer(" ", "_", "+", "é").Replace(largeText(n, seed, []string{"é", "-", "."}))
	return "n" + s
}

var largeEsc = strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", "\"", "&#34;")

// build gives the document. Every part is an element within the root, some
// are in the internal subset.
func (c *largeCase) build() docCase {
	var decls, body, before, after strings.Builder
	d := &Doc{Root: &N{K: KElem, Name: "root"}}
	dtd := &DTD{Name: "root"}
	hasDTD := false
	decl := func(x *Decl, src string) {
		hasDTD = true
		dtd.Decls = append(dtd.Decls, x)
		decls.WriteString(src)
	}
	for pi, p := range c.Parts {
		e := &N{K: KElem, Name: fmt.Sprintf("p%d", pi)}
		text := func(special ...string) string { return largeText(p.N, p.Seed, special) }
		kid := func(n *N) { e.Kids = append(e.Kids, n) }
		open, content := e.Name, ""
		count := func(each, most int) int {
			n := p.N / each
			if p.Huge {
				switch p.K {
				case "attrs", "atts", "attlists", "nsdecls", "elements", "entities", "pentities", "seq", "choice", "mixedmodel":
					// the time is quadratic in some of these
					most *= 2
				default:
					most *= 6
				}
			}
			if n > most {
				n = most
			}
			return n + 1
		}
		switch p.K {
		case "text":
			s := text("é", "日本", "<", "&", "]]", "\n", "\U0001F600", "\t", ">", "x\n\n")
			kid(&N{K: KText, Text: s})
			content = largeEsc.Replace(s)
		case "lines":
			s := text("\n", "\n", "\n\n\n", "\n \n")
			kid(&N{K: KText, Text: s})
			content = s
		case "cdata":
			s := text("é", "<", "&", "]]", "\n", "&amp;", "<b>", "]", "\U0001F600")
			s = strings.Replace(s, "]]>", "]] ", -1)
			kid(&N{K: KText, Text: s})
			content = "<![CDATA[" + s + "]]>"
		case "comment":
			s := strings.Replace(text("é", "<", "&", "]]>", "\n", "- ", "日本")+"x", "--", "- ", -1)
			kid(&N{K: KComm, Text: s})
			content = "<!--" + s + "-->"
		case "pi":
			s := strings.TrimLeft(strings.Replace(text("é", "<", "&", "]]>", "\n", "?", "日本"), "?>", "? ", -1), " \n") + "x"
			kid(&N{K: KPI, Name: "t", Text: s})
			content = "<?t " + s + "?>"
		case "value":
			s := text("é", "<", "&", "'", "\"", ">", "日本")
			e.Attrs = []Attr{{"x", "1"}, {"v", s}, {"y", "2"}}
			open += " x='1' v=\"" + largeEsc.Replace(s) + "\" y='2'"
		case "attrs":
			for i := count(12, 1500); i > 0; i-- {
				e.Attrs = append(e.Attrs, Attr{fmt.Sprintf("a%d", i), fmt.Sprint(i + p.Seed)})
				open += fmt.Sprintf(" a%d='%d'", i, i+p.Seed)
			}
		case "kids", "mixed":
			var b strings.Builder
			for i := count(8, 12000); i > 0; i-- {
				k := i % 4
				if p.K == "kids" {
					k = 0
				}
				x := fmt.Sprint(i)
				switch k {
				case 0:
					kid(&N{K: KElem, Name: "k" + x})
					b.WriteString("<k" + x + "/>")
				case 1:
					kid(&N{K: KText, Text: x})
					b.WriteString(x)
				case 2:
					kid(&N{K: KComm, Text: x})
					b.WriteString("<!--" + x + "-->")
				case 3:
					kid(&N{K: KPI, Name: "k" + x, Text: x})
					b.WriteString("<?k" + x + " " + x + "?>")
				}
			}
			content = b.String()
		case "deep":
			var o, cl []string
			in := e
			most := 1500
			if p.Seed == 7 {
				most = 9000
			}
			if p.Huge {
				most = 9900 / 6
			}
			n := count(16, most)
			for i := 0; i < n; i++ {
				k := &N{K: KElem, Name: fmt.Sprintf("d%d", i*7+p.Seed)}
				in.Kids = []*N{k}
				o = append(o, "<"+k.Name+">")
				cl = append(cl, "</"+k.Name+">")
				if i%3 == 0 {
					in.Kids = append(in.Kids, &N{K: KText, Text: fmt.Sprint(i)})
					cl[i] += fmt.Sprint(i)
				}
				in = k
			}
			var b strings.Builder
			b.WriteString(strings.Join(o, ""))
			for i := n - 1; i >= 0; i-- {
				b.WriteString(cl[i])
			}
			content = b.String()
		case "elemname":
			e.Name = largeName(p.N, p.Seed)
			open = e.Name
		case "attname":
			s := largeName(p.N, p.Seed)
			e.Attrs = []Attr{{s, "1"}, {s + "y", "2"}}
			open += " " + s + "='1' " + s + "y='2'"
		case "target":
			s := largeName(p.N, p.Seed)
			kid(&N{K: KPI, Name: s, Text: "x"})
			content = "<?" + s + " x?>"
		case "prefix":
			s := largeName(p.N, p.Seed)
			e.NS = []NSDecl{{s, "u1"}, {s + "y", "u2"}}
			kid(&N{K: KElem, Name: s + ":k"})
			kid(&N{K: KElem, Name: s + "y:k"})
			open += " xmlns:" + s + "='u1' xmlns:" + s + "y='u2'"
			content = "<" + s + ":k/><" + s + "y:k/>"
		case "uri":
			s := "u:" + strings.Replace(text("é", "."), " ", "/", -1)
			e.NS = []NSDecl{{"q", s}, {"", s + "y"}}
			kid(&N{K: KElem, Name: "q:k"})
			open += " xmlns:q='" + s + "' xmlns='" + s + "y'"
			content = "<q:k/>"
		case "nsdecls":
			var b strings.Builder
			for i := count(20, 600); i > 0; i-- {
				x := NSDecl{fmt.Sprintf("q%d", i), fmt.Sprintf("u%d", i+p.Seed)}
				e.NS = append(e.NS, x)
				open += " xmlns:" + x.Prefix + "='" + x.URI + "'"
				if i%7 == 0 {
					kid(&N{K: KElem, Name: x.Prefix + ":k"})
					b.WriteString("<" + x.Prefix + ":k/>")
				}
			}
			content = b.String()
		case "blanks":
			s := strings.Repeat(" \t\n ", p.N/4+1)
			e.Attrs = []Attr{{"x", "1"}, {"y", "2"}}
			kid(&N{K: KElem, Name: "k"})
			switch p.Seed % 5 {
			case 0:
				open += s + "x='1' y='2'"
			case 1:
				open += " x='1'" + s + "y='2'"
			case 2:
				open += " x='1' y='2'" + s
			case 3:
				open += " x" + s + "='1' y=" + s + "'2'"
			default:
				open += " x='1' y='2'"
			}
			content = "<k></k>"
			if p.Seed%5 == 4 {
				content = "<k></k" + s + ">"
			}
		case "charrefs", "refs":
			var b, v strings.Builder
			for i := count(6, 30000); i > 0; i-- {
				r := rune(0x41 + (i*7+p.Seed)%2000)
				if p.K == "refs" {
					r = rune("<>&'\""[(i*7+p.Seed+i/5)%5])
					fmt.Fprintf(&b, "&%s;", []string{"lt", "gt", "amp", "apos", "quot"}[(i*7+p.Seed+i/5)%5])
				} else if i%2 == 0 {
					fmt.Fprintf(&b, "&#%d;", r)
				} else {
					fmt.Fprintf(&b, "&#x%x;", r)
				}
				v.WriteRune(r)
			}
			content = b.String()
			e.Attrs = []Attr{{"v", v.String()}}
			kid(&N{K: KText, Text: v.String()})
			open += " v='" + content + "'"
		case "before", "after":
			w, l := &before, &d.Before
			if p.K == "after" {
				w, l = &after, &d.After
			}
			for i := count(10, 5000); i > 0; i-- {
				x := fmt.Sprint(i)
				if i%2 == 0 {
					*l = append(*l, &N{K: KComm, Text: x})
					w.WriteString("<!--" + x + "-->\n")
				} else {
					*l = append(*l, &N{K: KPI, Name: "k" + x, Text: x})
					w.WriteString("<?k" + x + " " + x + "?>")
				}
			}

		// in the internal subset
		case "elements":
			for i := count(20, 3000); i > 0; i-- {
				x := &Decl{K: "elem", Name: fmt.Sprintf("e%d_%d", pi, i), Type: []string{"EMPTY", "ANY"}[(i+p.Seed)%2]}
				decl(x, "<!ELEMENT "+x.Name+" "+x.Type+">")
			}
		case "atts", "attlists":
			if p.K == "atts" {
				decls.WriteString("<!ATTLIST " + e.Name)
			}
			for i := count(20, 3000); i > 0; i-- {
				x := &Decl{K: "att", Name: e.Name, Att: fmt.Sprintf("a%d", i), AttType: []string{"CDATA", "NMTOKEN", "IDREF"}[(i+p.Seed)%3], Def: []string{"#IMPLIED", "#REQUIRED"}[i%2]}
				if p.K == "atts" {
					decl(x, " "+x.Att+" "+x.AttType+" "+x.Def)
				} else {
					x.Name = fmt.Sprintf("l%d_%d", pi, i%97)
					decl(x, "<!ATTLIST "+x.Name+" "+x.Att+" "+x.AttType+" "+x.Def+">")
				}
			}
			if p.K == "atts" {
				decls.WriteString(">")
			}
		case "enum":
			x := &Decl{K: "att", Name: e.Name, Att: "v", AttType: "ENUM", Def: "#IMPLIED"}
			for i := count(8, 8000); i > 0; i-- {
				x.Enum = append(x.Enum, fmt.Sprint("t", i))
			}
			decl(x, "<!ATTLIST "+e.Name+" v ("+strings.Join(x.Enum, "|")+") #IMPLIED>")
		case "seq", "choice", "mixedmodel":
			m := &CM{Op: "seq"}
			x := &Decl{K: "elem", Name: e.Name, Type: "CHILDREN", Model: m}
			sep := ","
			var l []string
			if p.K != "seq" {
				m.Op, sep = "or", "|"
			}
			if p.K == "mixedmodel" {
				x.Type = "MIXED"
				m.Occ = "*"
				m.Kids = []*CM{{Op: "pcdata"}}
				l = []string{"#PCDATA"}
			}
			for i := count(8, 4000); i > 0; i-- {
				k := &CM{Op: "name", Name: fmt.Sprint("m", i)}
				if x.Type != "MIXED" {
					k.Occ = []string{"", "?", "*", "+", ""}[(i+p.Seed)%5]
				}
				m.Kids = append(m.Kids, k)
				l = append(l, k.Name+k.Occ)
			}
			decl(x, "<!ELEMENT "+e.Name+" ("+strings.Join(l, sep)+")"+m.Occ+">")
		case "nested":
			// many groups next to each other
			m := &CM{Op: "seq"}
			x := &Decl{K: "elem", Name: e.Name, Type: "CHILDREN", Model: m}
			var l []string
			for i := count(14, 1500); i > 0; i-- {
				k := &CM{Op: "or", Occ: []string{"", "?", "*", "+", ""}[(i+p.Seed)%5], Kids: []*CM{{Op: "name", Name: fmt.Sprint("m", i)}, {Op: "name", Name: "z"}}}
				m.Kids = append(m.Kids, k)
				l = append(l, fmt.Sprintf("(m%d|z)%s", i, k.Occ))
			}
			decl(x, "<!ELEMENT "+e.Name+" ("+strings.Join(l, ",")+")>")
		case "entity", "entityrefs":
			s := text("é", "'", "&#38;", "\n", "日本")
			x := &Decl{K: "ent", Name: fmt.Sprint("e", pi)}
			v := s
			if p.K == "entityrefs" {
				s = strings.Repeat("&#65;&#x42;.", p.N/12+1)
				v = strings.Repeat("AB.", p.N/12+1)
			}
			x.Text = strings.Replace(v, "&#38;", "-", -1)
			decl(x, "<!ENTITY "+x.Name+" \""+strings.Replace(s, "&#38;", "&#45;", -1)+"\">")
			kid(&N{K: KRef, Name: x.Name})
			content = "&" + x.Name + ";"
		case "tokens":
			s := text("  ", "\n", "\t ", "   \n   ")
			e.Attrs = []Attr{{"u", strings.NewReplacer("\n", " ", "\t", " ").Replace(s)}, {"v", strings.Join(strings.Fields(s), " ")}}
			decl(&Decl{K: "att", Name: e.Name, Att: "v", AttType: "NMTOKENS", Def: "#IMPLIED"}, "<!ATTLIST "+e.Name+" v NMTOKENS #IMPLIED>")
			open += " u='" + s + "' v='" + s + "'"
		case "default":
			s := text("é", "'", "&lt;", "日本")
			x := &Decl{K: "att", Name: "other", Att: "v", AttType: "CDATA", Default: strings.Replace(s, "&lt;", "<", -1)}
			decl(x, "<!ATTLIST other v CDATA \""+s+"\">")
		case "entities", "pentities":
			var b strings.Builder
			for i := count(24, 3000); i > 0; i-- {
				x := &Decl{K: "ent", Name: fmt.Sprintf("e%d_%d", pi, i), Text: fmt.Sprint(i + p.Seed)}
				if p.K == "pentities" {
					x.K = "pent"
					decl(x, "<!ENTITY % "+x.Name+" '"+x.Text+"'>")
					continue
				}
				decl(x, "<!ENTITY "+x.Name+" '"+x.Text+"'>")
				if i%5 == 0 {
					kid(&N{K: KRef, Name: x.Name})
					b.WriteString("&" + x.Name + ";")
				}
			}
			content = b.String()
		case "dtdcomment":
			s := strings.Replace(text("é", "<", "&", "]>", "\n", "- ", "%p;")+"x", "--", "- ", -1)
			decl(&Decl{K: "comm", Text: s}, "<!--"+s+"-->")
		case "dtdpi":
			s := strings.TrimLeft(strings.Replace(text("é", "<", "&", "]>", "\n", "?", "%p;"), "?>", "? ", -1), " \n") + "x"
			decl(&Decl{K: "pi", Name: "t", Text: s}, "<?t "+s+"?>")
		case "dtdblanks":
			s := strings.Repeat(" \t\n ", p.N/4+1)
			x := &Decl{K: "ent", Name: fmt.Sprint("e", pi), Text: "1"}
			f := []string{" ", " ", "", ""}
			f[p.Seed%4] = s
			decl(x, "<!ENTITY"+f[0]+x.Name+f[1]+"'1'"+f[2]+">"+f[3])
		case "declname":
			s := largeName(p.N, p.Seed)
			x := &Decl{K: "att", Name: s, Att: s, AttType: "CDATA", Def: "#IMPLIED"}
			decl(&Decl{K: "elem", Name: s, Type: "EMPTY"}, "<!ELEMENT "+s+" EMPTY>")
			decl(x, "<!ATTLIST "+s+" "+s+" CDATA #IMPLIED>")
			decl(&Decl{K: "ent", Name: s, Text: "1"}, "<!ENTITY "+s+" '1'>")
			kid(&N{K: KRef, Name: s})
			content = "&" + s + ";"
		case "doctype":
			hasDTD = true
			d.Root.Name = largeName(p.N, p.Seed)
			dtd.Name = d.Root.Name
		}
		d.Root.Kids = append(d.Root.Kids, e)
		body.WriteString("<" + open)
		if content == "" {
			body.WriteString("/>")
		} else {
			body.WriteString(">" + content + "</" + e.Name + ">")
		}
	}
	// something small at the end, where mistakes carry over to
	d.Root.Kids = append(d.Root.Kids, &N{K: KElem, Name: "end", Attrs: []Attr{{"z", "é"}}, Kids: []*N{{K: KText, Text: "x"}}}, &N{K: KText, Text: "y"})
	body.WriteString("<end z='é'>x</end>y")
	// and after the root element
	d.After = append(d.After, &N{K: KComm, Text: "y"}, &N{K: KPI, Name: "z", Text: "z"})
	after.WriteString("<!--y-->\n<?z z?>")
	src := before.String()
	if hasDTD {
		d.DTD = dtd
		src += "<!DOCTYPE " + dtd.Name + " [" + decls.String() + "]>"
	}
	src += "<" + d.Root.Name + ">" + body.String() + "</" + d.Root.Name + ">" + after.String()
	if err := d.Root.resolve(nil); err != nil {
		panic(err)
	}
	if c.CRLF {
		src = strings.Replace(src, "\n", "\r\n", -1)
	}
	return docCase{[]byte(src), d}
}

func (c *largeCase) labels() (l []string, big bool) {
	for _, p := range c.Parts {
		l = append(l, p.K)
		if p.N >= 1<<12 {
			big = true
		}
		if p.N >= 1<<16 {
			l = append(l, "64K+")
			if p.Huge {
				l = append(l, "huge "+p.K)
			}
		}
	}
	return l, big
}

// regLarge checks large documents
func regLarge(id string, quick, thorough int, kinds []string, check func(c docCase) error) {
	reg(id, "large", quick, thorough,
		func(t *rapid.T) largeCase { return genLarge(t, kinds, 140000) },
		func(c largeCase) Out {
			for i, p := range c.Parts {
				switch p.K {
				case "elemname", "attname", "target", "prefix", "declname", "doctype":
					// (declarations are read back by the reference parser,
					// which has a limit of its own)
					if m := map[bool]int{false: 48000, true: 9000}[p.K == "declname"]; p.N > m {
						c.Parts[i].N = m - p.N%41
					}
				case "kids", "mixed", "before", "after":
					// (the time to make these by calls is quadratic)
					c.Parts[i].Huge = p.Huge && id != "P05"
				}
			}
			l, big := c.labels()
			d := c.build()
			return Out{Err: check(d), NonTrivial: big, Labels: l, Sample: fmt.Sprintf("%v, %d bytes", c.Parts, len(d.Src))}
		}).maxCPU = 45 * time.Second
}

func init() {
	all := append(append([]string(nil), largeContent...), largeDTD...)
	regLarge("P01", 800, 40000, largeContent, func(c docCase) error { return checkTree(c.Src, c.Doc, canonOpt{}) })
	regLarge("P04", 300, 8000, all, func(c docCase) error {
		_, _, err := roundTrip(c.Src, c.Doc)
		return err
	})
	regLarge("P08", 300, 8000, all, func(c docCase) error { return checkStream(c.Src, c.Doc, len(c.Src)%2 == 0) })
	regLarge("P09", 160, 8000, largeDTD, checkSubset)
	regLarge("P05", 250, 12000, all, func(c docCase) error {
		return checkBuild(buildCase{buildable(c.Doc), c.Src[len(c.Src)-30:]}).Err
	})
	regLarge("P10", 200, 12000, []string{"tokens", "value", "attrs", "refs", "charrefs", "default", "atts"}, func(c docCase) error {
		if err := checkTree(c.Src, c.Doc, canonOpt{}); err != nil {
			return err
		}
		return checkStream(c.Src, c.Doc, len(c.Src)%2 == 0)
	})
}
