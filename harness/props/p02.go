package props

import (
	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P02: ill-formed documents are rejected with an error.

// mustReject parses src, which is ill-formed because of why
func mustReject(src []byte, why string) error {
	doc, err := helium.Parse(src)
	if err == nil {
		s := ""
		if doc != nil {
			s, _ = doc.XMLString()
		}
		return errorf("ill-formed document accepted (%s)\ndocument: %s\nread as: %s", why, show(src), show([]byte(s)))
	}
	if doc != nil {
		return errorf("a document is returned along with the error %v\ndocument: %s", err, show(src))
	}
	return nil
}

func init() {
	prop("P02", "the document is ill-formed and longer than 20 bytes")
	mutated := func(c srcCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{r.V.String()}, Sample: string(c.Src) + "\n   " + r.Msg}
		if r.V != vBad {
			return out
		}
		out.NonTrivial = len(c.Src) > 20
		out.Err = mustReject(c.Src, r.Msg)
		return out
	}
	reg("P02", "mutated", 40000, 2000000, func(t *rapid.T) srcCase { return srcCase{genSource(t)} }, mutated)
	reg("P02", "keywords", 25000, 1200000, func(t *rapid.T) brokenCase {
		src := spell(t, genDoc(t, GenOpt{MaxElems: 4}))
		if chance(t, 1, 4) {
			src = genVarious(t)
		}
		b, what := editKeyword(t, src)
		return brokenCase{Src: b, Kind: what}
	}, func(c brokenCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{c.Kind + ": " + r.V.String()}, Sample: string(c.Src) + "\n   " + r.Msg}
		if r.V == vBad {
			out.NonTrivial = len(c.Src) > 20
			out.Err = mustReject(c.Src, r.Msg)
		}
		return out
	})
	reg("P02", "various", 10000, 500000, func(t *rapid.T) srcCase { return srcCase{mutate(t, genVarious(t), 1)} }, mutated)
}

// fragments that break a rule when they are inserted at a place of the given
// kind. The reference parser confirms that the result is ill-formed.
var breakers = map[string][]string{
	"content": {
		"</zz>", "<zz>", "&", "& ", "&;", "&#0;", "&#xD800;", "&#xDFFF;", "&#xFFFE;", "&#xFFFF;", "&#x110000;", "&#1114112;", "&#;", "&#x;", "&#65", "&#x41", "&#xG;", "&#6A;", "&#-1;", "&# 65;", "&#8;", "&#x1F;", "&#12;", "&#99999999999;", "&#x100000041;", "&#4294967361;", "&#18446744073709551681;",
		"&undeclared;", "&e ;", "&lt", "&amp", "& amp;", "&amp ;", "&LT;", "&1;", "&-a;",
		"]]>", "x]]>y", "]]]>", "<!-- -- -->", "<!-- a --->", "<!--->", "<!-->", "<!-- x --", "<!- x -->", "<!----->", "<!--a-- >",
		"<?xml version='1.0'?>", "<?XML x?>", "<?xMl?>", "<?xml?>", "<? x?>", "<?1x?>", "<?x", "<?x ?", "<?x>", "<??>", "<?x!y?>", "<?-a?>",
		"<1a/>", "<-a/>", "<.a/>", "<a b/>", "<a b=1/>", "<a b=x/>", "<a b='1' b='2'/>", "<a b='1' c='3' b=\"1\"/>", "<a b='1'c='2'/>", "<a b='<'/>", "<a b='x<y'/>", "<a b='&'/>", "<a b='& '/>", "<a b='&#0;'/>", "<a b='&#x1F;'/>", "<a b='&nope;'/>", "<a b='&lt'/>", "<a b='\x01'/>", "<a b='\uFFFE'/>", "<a b='&#xD800;'/>", "<a b='1\"/>", "<a 'b'='1'/>", "<a b=='1'/>", "<a =''/>", "<a b= />", "<a b></a>", "<a 1='x'/>", "<a -b='x'/>", "<a b='x' / >", "<a b='x',c='y'/>", "<a b:='x'c=''/>",
		"<a\x01/>", "\x01", "\x02x", "\x0b", "\x1f", "\uFFFE", "\uFFFF", "\x00", "\x08",
		"<!DOCTYPE a>", "<!x>", "<![cdata[x]]>", "<![CDATA [x]]>", "<![CDATA[x", "<![CDATA[\x01]]>", "<![CDATA[x]>", "<![CDATA[x]]", "<![CDAT[x]]>", "<!ELEMENT a EMPTY>", "<!ENTITY a 'b'>", "<![INCLUDE[x]]>",
		"< a/>", "<a/ >", "<a / >", "</ a>", "<a></b>", "<a></A>", "<a></a b='1'>", "<a></a x>", "<a></a", "<a><b></a></b>", "<a></a></a>", "<a", "<a b='1'", "<a></", "<", "</>", "<>", "</", "<a/", "<a//>", "<a></aa>", "<aa></a>", "<é></è>",
		"<a xmlns:p='urn:a' xmlns:p='urn:b'/>", "<a xmlns='urn:a' xmlns='urn:b'/>", "<a xmlns='urn:a' b='' xmlns='urn:a'/>", "<nope:a/>", "<a xmlns:p='urn:a'/><p:b/>", "<a xmlns:p='urn:a'><nope:b/></a>",
		"\xff", "\xc3", "\xe2\x82", "\xed\xa0\x80", "\xc0\x80", "\xf4\x90\x80\x80", "\xf8\x88\x80\x80\x80", "\x80",
		"<a b='\xff'/>", "<!--\xff-->", "<?x \xc3?>", "<!-- \x01 -->", "<?x \x01?>", "<!--\uFFFF-->", "<?x \uFFFE?>", "<a b='a\x00'/>",
	},
	"top": {
		"x", "&amp;", "&#32;", "&#65;", "&u;", "<![CDATA[x]]>", "<![CDATA[]]>", "</a>", "<?xml version='1.0'?>", "<?xml ?>", "<?XML?>", "<!-- -- -->", "<!-- a --->", "<!--->", "<? x?>", "<?x", "<!", "<!DOCTYPE>", "<!DOCTYPE ", "<!doctype a>", "<!ELEMENT a EMPTY>", "]]>", "\x01", "\uFFFE", "\x00", "<!x>", "<1/>", "<", "&", "<!-- \x02 -->", "<?x \x01?>", "\xff", "\x0b", "\u00a0", "\u2028", "\u0085",
		"<!DOCTYPE a><!DOCTYPE a>", "<!DOCTYPE a [<!DOCTYPE a>]>", "<!DOCTYPE a [", "<!DOCTYPE a []", "<!DOCTYPE a [] x>", "<!DOCTYPE a x>", "<!DOCTYPE a[>", "<!DOCTYPE a]>", "<!DOCTYPEa>", "<!DOCTYPE 1a>", "<!DOCTYPE a [x]>", "<!DOCTYPE a [<a/>]>", "<!DOCTYPE a [&amp;]>", "<!DOCTYPE a [[]]>", "<!DOCTYPE a>[]>", "<!DOCTYPE a [<![CDATA[x]]>]>", "<!DOCTYPE a [<![INCLUDE[x]]>]>", "<!DOCTYPE a [<?xml version='1.0'?>]>", "<!DOCTYPE 'a'>", "<!DOCTYPE \"a\" []>",
	},
	"after": {
		"<a/>", "<a></a>", "x", "<b>x</b>", "&amp;", "&#32;", "<!DOCTYPE a>", "<![CDATA[]]>", "</a>", "<", "<!", "<?", "<?x", "<!--", "<!-- x", "\x00", "\x01", "&", "]]>", "<?xml version='1.0'?>", "<!ELEMENT a ANY>",
	},
	"dtd": {
		"x", "<a/>", "&amp;", "&#65;", "<![CDATA[x]]>", "<!x>", "<!>", "<", "<!DOCTYPE a>", "<![INCLUDE[<!ELEMENT a EMPTY>]]>", "<![IGNORE[]]>", "]", "[", "<?xml version='1.0'?>", "<!-- -- -->", "\x01", "<?xml?>",
		"<!ELEMENT>", "<!ELEMENT >", "<!ELEMENT z>", "<!ELEMENT z >", "<!ELEMENT z EMPT>", "<!ELEMENT z empty>", "<!ELEMENT z EMPTY ANY>", "<!ELEMENTz EMPTY>", "<!ELEMENT z EMPTY", "<!ELEMENT zEMPTY>", "<!ELEMENT 1 EMPTY>", "<!ELEMENT z (EMPTY>", "<!ELEMENT z x>", "<!ELEMENT z a,b>", "<!element z EMPTY>", "<!ELEMENT z 'EMPTY'>", "<! ELEMENT z EMPTY>",
		"<!ELEMENT z ()>", "<!ELEMENT z (a>", "<!ELEMENT z a)>", "<!ELEMENT z (a,)>", "<!ELEMENT z (,a)>", "<!ELEMENT z (a,b|c)>", "<!ELEMENT z (a|b,c)>", "<!ELEMENT z (a|b|)>", "<!ELEMENT z (a b)>", "<!ELEMENT z (a,,b)>", "<!ELEMENT z (a||b)>", "<!ELEMENT z (a)**>", "<!ELEMENT z (a)?+>", "<!ELEMENT z (a ?)>", "<!ELEMENT z (a) *>", "<!ELEMENT z ((a)>", "<!ELEMENT z (a))>", "<!ELEMENT z (a&b)>", "<!ELEMENT z ((a|b),c|d)>", "<!ELEMENT z (a,(b|c,d))>", "<!ELEMENT z (1)>", "<!ELEMENT z (*)>", "<!ELEMENT z (a)(b)>", "<!ELEMENT z (a),(b)>", "<!ELEMENT z (())>", "<!ELEMENT z (a,())>", "<!ELEMENT z (a)x>", "<!ELEMENT z(a)>",
		"<!ELEMENT z (#PCDATA|a)>", "<!ELEMENT z (#PCDATA,a)*>", "<!ELEMENT z (a|#PCDATA)*>", "<!ELEMENT z (#PCDATA|)*>", "<!ELEMENT z (#PCDATA|a)+>", "<!ELEMENT z (#PCDATA)+>", "<!ELEMENT z (#PCDATA)?>", "<!ELEMENT z #PCDATA>", "<!ELEMENT z (#PCDATA|(a))*>", "<!ELEMENT z (#PCDATA|a*)*>", "<!ELEMENT z (#pcdata)>", "<!ELEMENT z (# PCDATA)>", "<!ELEMENT z (#PCDATA a)*>", "<!ELEMENT z ((#PCDATA))>", "<!ELEMENT z (#PCDATA|#PCDATA)*>", "<!ELEMENT z (a,#PCDATA)>", "<!ELEMENT z (#PCDATA*)>", "<!ELEMENT z (#PCDATA|a) *>", "<!ELEMENT z (#PCDATA", "<!ELEMENT z (#PCDATA|a)*x>", "<!ELEMENT z (#CDATA)>",
		"<!ATTLIST>", "<!ATTLIST >", "<!ATTLIST z b>", "<!ATTLIST z b CDATA>", "<!ATTLIST z b CDATA #FIXED>", "<!ATTLIST z b CDATA #IMPLIED 'x'>", "<!ATTLIST z b CDATA #REQUIRED 'x'>", "<!ATTLIST z b CDATA x>", "<!ATTLIST z b FOO #IMPLIED>", "<!ATTLIST z b cdata #IMPLIED>", "<!ATTLIST z b CDATA#IMPLIED>", "<!ATTLIST z bCDATA #IMPLIED>", "<!ATTLISTz b CDATA #IMPLIED>", "<!ATTLIST z b CDATA #implied>", "<!ATTLIST z b CDATA #IMPLIED", "<!ATTLIST z 1 CDATA #IMPLIED>", "<!ATTLIST 1 b CDATA #IMPLIED>", "<!ATTLIST z b () 'x'>", "<!ATTLIST z b (x|) 'x'>", "<!ATTLIST z b (x,y) 'x'>", "<!ATTLIST z b (x y) 'x'>", "<!ATTLIST z b (x 'x'>", "<!ATTLIST z b x) 'x'>", "<!ATTLIST z b (x)'x'>", "<!ATTLIST z b(x) 'x'>", "<!ATTLIST z b (|x) 'x'>", "<!ATTLIST z b ('x') 'x'>", "<!ATTLIST z b (x||y) 'x'>", "<!ATTLIST z b CDATA 'x\">", "<!ATTLIST z b CDATA '<'>", "<!ATTLIST z b CDATA '&'>", "<!ATTLIST z b CDATA '&nope;'>", "<!ATTLIST z b CDATA '&#0;'>", "<!ATTLIST z b CDATA '\x01'>", "<!ATTLIST z b CDATA #FIXED'x'>", "<!ATTLIST z b CDATA 'x' c>", "<!ATTLIST z b CDATA 'x'c CDATA 'y'>", "<!ATTLIST z b CDATA 'x' 'y'>", "<!ATTLIST z b NMTOKEN '<'>", "<!ATTLIST z b IDREFSS #IMPLIED>", "<!ATTLIST z b CDATA #IMPLIEDx>", "<!ATTLIST z b (x)x>", "<!ATTLIST z b CDATA '&lt'>",
		"<!ATTLIST z b NOTATION #IMPLIED>", "<!ATTLIST z b NOTATION(x) #IMPLIED>", "<!ATTLIST z b NOTATION () #IMPLIED>", "<!ATTLIST z b NOTATION (1) #IMPLIED>", "<!ATTLIST z b NOTATION (x|2y) #IMPLIED>", "<!ATTLIST z b NOTATION (x|) #IMPLIED>", "<!ATTLIST z b NOTATION (|x) #IMPLIED>", "<!ATTLIST z b NOTATION (x,y) #IMPLIED>", "<!ATTLIST z b NOTATION (x y) #IMPLIED>", "<!ATTLIST z b NOTATION (x #IMPLIED>", "<!ATTLIST z b NOTATION x #IMPLIED>", "<!ATTLIST z b NOTATION (x)#IMPLIED>", "<!ATTLIST z b NOTATION (x)>", "<!ATTLIST z b notation (x) #IMPLIED>", "<!ATTLIST z b NOTATION (x) (y) #IMPLIED>", "<!ATTLIST z b NOTATION ('x') #IMPLIED>", "<!ATTLIST z bNOTATION (x) #IMPLIED>", "<!ATTLIST z b NOTATIONS (x) #IMPLIED>", "<!ATTLIST z b NOTATION (-x) #IMPLIED>", "<!ATTLIST z b NOTATION (x) 'x>", "<!ATTLIST z b NOTATION (x) '<'>", "<!ATTLIST z b NOTATION (x) #FIXED>",
		"<!ENTITY>", "<!ENTITY >", "<!ENTITY y>", "<!ENTITY y 'x>", "<!ENTITY y x>", "<!ENTITYy 'x'>", "<!ENTITY y'x'>", "<!ENTITY y 'x' 'y'>", "<!ENTITY y 'x'", "<!ENTITY 1 'x'>", "<!ENTITY y '&'>", "<!ENTITY y '& '>", "<!ENTITY y '&#0;'>", "<!ENTITY y '&#xD800;'>", "<!ENTITY y '&#x;'>", "<!ENTITY y '&x'>", "<!ENTITY y '&#65'>", "<!ENTITY y '\x01'>", "<!ENTITY y '\uFFFE'>", "<!ENTITY % y>", "<!ENTITY %y 'x'>", "<!ENTITY % y 'x>", "<!ENTITY % 'x'>", "<!ENTITY y 'x'x>", "<!ENTITY y 'x' NDATA z>", "<!ENTITY % y '&'>", "<!entity y 'x'>", "<!ENTITY y \"x'>", "<!ENTITY y '&1;'>", "<!ENTITY y '&#1;'>", "<!ENTITY y:z 'x'>", "<!ENTITY % y:z 'x'>", "<!ENTITY :y 'x'>", "<!ENTITY y: 'x'>",
		"<!-- x", "<?x", "<!ELEMENT z EMPTY --x-->", "<!NOTATIO>", "<!", "<!E", "<!EN>", "<!ATTLIS z>", "<!-", "\xff", "<!--\x01-->", "<?x \x01?>",
	},
	"tag": {
		" b", " b=", " b=1", " b='1", " b='1' b='2'", " b='1'b2='1'", "'", "\"", "<", "&", "=", " =", " b='<'", " b='&'", " b=\"&nope;\"", " 1='2'", "\x01", " b='\x02'", " /", "!", "?", " b:c:d=''x", ";", " b = = '1'", " b='1',", " xmlns:p1='urn:1' xmlns:p1='urn:1'", " b 'x'", "\u00a0b='1'", " b='1'\u00a0c='1'", " \u2028", "\x00",
	},
	"attval": {
		"<", "&", "& ", "&;", "&nope;", "&#0;", "&#x;", "&#xD800;", "&amp", "\x01", "\uFFFE", "\x00", "\xff", "&#65", "<a/>", "<!-- x -->", "<![CDATA[x]]>", "&lt", "&#xFFFF;", "\x0b", "&1;",
	},
	"aftval": {"<", "&", "&nope;", "&#0;", "\x01", "&#", "&#x1;", "\uFFFF"},
	"comment": {
		"--", "-- ", "---", "--x", "\x01", "\uFFFE", "\x00", "\xff", "x--x", "\x0b",
	},
	"pi":      {"\x01", "\uFFFF", "\x00", "\xff", "\x0b"},
	"cdata":   {"\x01", "\uFFFF", "\x00", "\xff", "]]>", "]]]>", "\x1f"},
	"name":    {"1", "-", ".", " ", "\n", "=", "!", "'", "&", "\x01", "\u00b7", "\u00d7", "\u0300", "\u2190", "/", "\u00b2", "\u00bd", "\u2460", "\u00a7", "\ue000", "\u00aa", "\u00b5", "\u203f", "\u3000", "\U000F0000"},
	"endname": {"x", "1", " ", "\n", "-", "X", "p:", "\x01", "/", "é", "\u00b9", "\u2462", "\u00b7", "\u00ba"},
	"endtag":  {"x", "1", "-", ".", ":x", " x", " a='1'", "/", "\x01", "<", "é", "\u0301", "="},
	"dtname":  {"<", "'", "\"", "!", "\x01", "&", " x", " 1", "/", "=", "#", ")"},
	"decl":    {"x", "<", ">", "'", "\"", "!", "&", "#", "(", ")", "\x01", "--", "-- x --", "&amp;", "|", ",", "=", "1", " ()", "\u00a0"},
	"cm":      {",", "|", "()", "#PCDATA", "<", "*", "?", "&", "'x'", "1 ", "\x01", "(", ")", ">"},
	"enum":    {"|", ",", "'x'|", "x ", "()", "<", "&", "\x01", "#", "*"},
	"entval":  {"&", "& ", "&#0;", "&#x;", "&x", "\x01", "\uFFFE", "&#xD800;", "&;", "&1;", "&#65"},
	"xmldecl": {"x", " x='y'", " version='1.0'", " encoding='utf-8'", " standalone='yes'", "'", "=", "<", "?", " standalone='maybe'", " standalone='YES'", " encoding=''", " encoding='-x'", " encoding='1'", " version='1.0' version='1.0'", "\x01", ">", " Version='1.0'", " version", " encoding='utf 8'", "\u00a0", " standalone=''", " standalone=yes", " standalone='no", "&#32;", ";"},
}

var breakerKinds = func() []string {
	m := map[string]bool{}
	for k := range breakers {
		m[k] = true
	}
	return sortedKeys(m)
}()

type brokenCase struct {
	Src  []byte
	Kind string
	Frag string
}

func (c *brokenCase) input() []byte                  { return c.Src }
func (c *brokenCase) withInput(b []byte) interface{} { return &brokenCase{b, c.Kind, c.Frag} }

func insertAt(src []byte, p int, frag string) []byte {
	r := append([]byte(nil), src[:p]...)
	r = append(r, frag...)
	return append(r, src[p:]...)
}

func genBroken(t *rapid.T) brokenCase {
	o := GenOpt{MaxElems: 6}
	d := genDoc(t, o)
	kind := breakerKinds[uni(t, len(breakerKinds))]
	switch kind {
	case "dtd", "decl", "cm", "enum", "entval", "dtname":
		if d.DTD == nil {
			d.DTD = genDTD(t, o)
		}
	case "xmldecl":
		if d.Decl == nil {
			d.Decl = &XMLDecl{Version: "1.0"}
		}
	case "comment":
		d.After = append(d.After, (&docGen{t: t}).comment())
	case "pi":
		d.After = append(d.After, &N{K: KPI, Name: "x", Text: "y"})
	}
	src, pos := spellMarks(t, d)
	if len(pos[kind]) == 0 {
		kind = "content"
	}
	if len(pos[kind]) == 0 {
		kind = "after"
	}
	l := breakers[kind]
	frag := l[uni(t, len(l))]
	p := pos[kind][uni(t, len(pos[kind]))]
	return brokenCase{insertAt(src, p, frag), kind, frag}
}

// truncations of a document
type truncCase struct {
	Src []byte
	At  int
}

func init() {
	reg("P02", "broken", 40000, 2000000, genBroken, func(c brokenCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{c.Kind + " " + r.V.String()}, Sample: string(c.Src)}
		if r.V != vBad {
			return out
		}
		out.NonTrivial = len(c.Src) > 20
		out.Err = mustReject(c.Src, c.Kind+" "+q(c.Frag)+": "+r.Msg)
		return out
	})
	reg("P02", "truncated", 1000, 60000,
		func(t *rapid.T) srcCase { return srcCase{spell(t, genDoc(t, GenOpt{MaxElems: 4}))} },
		func(c srcCase) Out {
			out := Out{Labels: []string{}, Sample: string(c.Src)}
			step := 1 + len(c.Src)/300
			for i := len(c.Src) % step; i < len(c.Src); i += step {
				r := refParse(c.Src[:i])
				if r.V == vBad {
					out.NonTrivial = true
					if err := mustReject(c.Src[:i], "truncated: "+r.Msg); err != nil {
						out.Err = err
						return out
					}
				} else if r.V == vOK {
					if err := checkTree(c.Src[:i], r.Doc, canonOpt{noDTD: true}); err != nil {
						out.Err = err
						return out
					}
				}
			}
			return out
		})
}
