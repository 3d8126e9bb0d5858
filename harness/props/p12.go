package props

import (
	"bytes"
	"fmt"
	"regexp"
	"strings"
	"unicode/utf8"

	"github.com/lestrrat-go/helium"
	enc "golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"pgregory.net/rapid"
)

// P12: the document encoding never changes the parsed content.

type encInfo struct {
	names []string
	e     enc.Encoding
	u16   bool
	pool  []rune // characters it has beyond ASCII
	can   map[rune]bool
}

var encTable = []*encInfo{
	{names: []string{"utf-16", "utf16"}, e: unicode.UTF16(unicode.BigEndian, unicode.UseBOM), u16: true},
	{names: []string{"utf-16le", "utf16le"}, e: unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM), u16: true},
	{names: []string{"utf-16be", "utf16be"}, e: unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), u16: true},
	{names: []string{"utf-8", "utf8"}, e: enc.Nop},
	{names: []string{"euc-jp"}, e: japanese.EUCJP},
	{names: []string{"shift_jis", "shift-jis", "shiftjis", "cp932"}, e: japanese.ShiftJIS},
	{names: []string{"iso-2022-jp", "jis"}, e: japanese.ISO2022JP},
	{names: []string{"big5"}, e: traditionalchinese.Big5},
	{names: []string{"euc-kr"}, e: korean.EUCKR},
	{names: []string{"hz-gb2312"}, e: simplifiedchinese.HZGB2312},
	{names: []string{"cp437"}, e: charmap.CodePage437},
	{names: []string{"cp866"}, e: charmap.CodePage866},
	{names: []string{"iso-8859-1"}, e: charmap.ISO8859_1},
	{names: []string{"iso-8859-2"}, e: charmap.ISO8859_2},
	{names: []string{"iso-8859-3"}, e: charmap.ISO8859_3},
	{names: []string{"iso-8859-4"}, e: charmap.ISO8859_4},
	{names: []string{"iso-8859-5"}, e: charmap.ISO8859_5},
	{names: []string{"iso-8859-6"}, e: charmap.ISO8859_6},
	{names: []string{"iso-8859-7"}, e: charmap.ISO8859_7},
	{names: []string{"iso-8859-8"}, e: charmap.ISO8859_8},
	{names: []string{"iso-8859-10"}, e: charmap.ISO8859_10},
	{names: []string{"iso-8859-13"}, e: charmap.ISO8859_13},
	{names: []string{"iso-8859-14"}, e: charmap.ISO8859_14},
	{names: []string{"iso-8859-15"}, e: charmap.ISO8859_15},
	{names: []string{"iso-8859-16"}, e: charmap.ISO8859_16},
	{names: []string{"koi8-r", "koi8r"}, e: charmap.KOI8R},
	{names: []string{"koi8-u", "koi8u"}, e: charmap.KOI8U},
	{names: []string{"macintosh"}, e: charmap.Macintosh},
	{names: []string{"macintoshcyrillic"}, e: charmap.MacintoshCyrillic},
	{names: []string{"windows-1250", "windows1250"}, e: charmap.Windows1250},
	{names: []string{"windows-1251", "windows1251"}, e: charmap.Windows1251},
	{names: []string{"windows-1252", "windows1252"}, e: charmap.Windows1252},
	{names: []string{"windows-1253", "windows1253"}, e: charmap.Windows1253},
	{names: []string{"windows-1254", "windows1254"}, e: charmap.Windows1254},
	{names: []string{"windows-1255", "windows1255"}, e: charmap.Windows1255},
	{names: []string{"windows-1256", "windows1256"}, e: charmap.Windows1256},
	{names: []string{"windows-1257", "windows1257"}, e: charmap.Windows1257},
	{names: []string{"windows-1258", "windows1258"}, e: charmap.Windows1258},
	{names: []string{"windows-874", "windows874"}, e: charmap.Windows874},
	{names: []string{"xuserdefined"}, e: charmap.XUserDefined},
}

func (x *encInfo) encode(s string) ([]byte, bool) {
	if x.e == enc.Nop {
		return []byte(s), utf8.ValidString(s)
	}
	b, err := x.e.NewEncoder().Bytes([]byte(s))
	if err != nil {
		return nil, false
	}
	d, err := x.e.NewDecoder().Bytes(b)
	return b, err == nil && string(d) == s
}

func (x *encInfo) canEnc(r rune) bool {
	if r < 0x80 && r != '~' && r != '\\' {
		return true
	}
	if x.u16 || x.e == enc.Nop {
		return true
	}
	if x.can == nil {
		x.can = map[rune]bool{}
	}
	ok, known := x.can[r]
	if !known {
		_, ok = x.encode(string(r))
		x.can[r] = ok
	}
	return ok
}

// chars gives characters of the encoding beyond ASCII
func (x *encInfo) chars() []rune {
	if x.pool != nil {
		return x.pool
	}
	seen := map[rune]bool{}
	add := func(b []byte) {
		d, err := x.e.NewDecoder().Bytes(b)
		if err != nil {
			return
		}
		r, w := utf8.DecodeRune(d)
		if w != len(d) || r < 0x80 || r == utf8.RuneError || !isChar(r) || seen[r] {
			return
		}
		if _, ok := x.encode(string(r)); ok {
			seen[r] = true
			x.pool = append(x.pool, r)
		}
	}
	switch {
	case x.u16 || x.e == enc.Nop:
		for _, r := range boundary {
			x.pool = append(x.pool, r)
		}
	case x.names[0] == "iso-2022-jp":
		for hi := 0x21; hi < 0x7F; hi += 3 {
			for lo := 0x21; lo < 0x7F; lo += 2 {
				add([]byte{0x1B, '$', 'B', byte(hi), byte(lo)})
			}
		}
	case x.names[0] == "hz-gb2312":
		for hi := 0x21; hi < 0x7F; hi += 3 {
			for lo := 0x21; lo < 0x7F; lo += 2 {
				add([]byte{'~', '{', byte(hi), byte(lo)})
			}
		}
	default:
		for a := 0x80; a < 0x100; a++ {
			add([]byte{byte(a)})
			for b := 0x40; b < 0x100; b += 5 {
				add([]byte{byte(a), byte(b)})
			}
		}
		if x.names[0] == "euc-jp" {
			for b := 0xA1; b < 0xFF; b += 3 {
				for c := 0xA1; c < 0xFF; c += 7 {
					add([]byte{0x8F, byte(b), byte(c)})
				}
			}
		}
	}
	if x.pool == nil {
		x.pool = []rune{'a'}
	}
	return x.pool
}

var entRef = regexp.MustCompile(`&[^#&;][^&;]*;`)

// adapt changes the names of the document, and what can not be written as a
// reference, to what the encoding has
func (x *encInfo) adapt(d *Doc) {
	name := func(s string) string {
		var b strings.Builder
		for _, r := range s {
			if r >= 0x80 && !x.canEnc(r) {
				fmt.Fprintf(&b, "u%x", r)
			} else {
				b.WriteRune(r)
			}
		}
		return b.String()
	}
	pool := x.chars()
	text := func(s string, must bool) string {
		i := 0
		return strings.Map(func(r rune) rune {
			i++
			switch {
			case r < 0x80 && (r < 'a' || i%3 != 0):
				if must && !x.canEnc(r) {
					return '*'
				}
				return r
			case r >= 0x80 && (x.canEnc(r) || !must && i%3 == 0):
				return r
			}
			return pool[(int(r)*7+i*31)%len(pool)]
		}, s)
	}
	lit := func(s string) string {
		s = text(s, true)
		return strings.Replace(s, "--", "- -", -1)
	}
	var nodes func(l []*N)
	nodes = func(l []*N) {
		for _, n := range l {
			n.Name = name(n.Name)
			switch n.K {
			case KText:
				n.Text = text(n.Text, false)
			case KComm, KPI:
				n.Text = lit(n.Text)
			}
			for i := range n.NS {
				n.NS[i].Prefix = name(n.NS[i].Prefix)
			}
			for i := range n.Attrs {
				n.Attrs[i].Name = name(n.Attrs[i].Name)
				n.Attrs[i].Value = text(n.Attrs[i].Value, false)
			}
			nodes(n.Kids)
		}
	}
	nodes(d.Before)
	nodes(d.Mid)
	nodes(d.After)
	nodes([]*N{d.Root})
	if d.DTD == nil {
		return
	}
	d.DTD.Name = name(d.DTD.Name)
	var cm func(c *CM)
	cm = func(c *CM) {
		if c == nil {
			return
		}
		c.Name = name(c.Name)
		for _, k := range c.Kids {
			cm(k)
		}
	}
	for _, c := range d.DTD.Decls {
		c.Name, c.Att = name(c.Name), name(c.Att)
		cm(c.Model)
		for i := range c.Enum {
			c.Enum[i] = name(c.Enum[i])
		}
		switch c.K {
		case "comm", "pi":
			c.Text = lit(c.Text)
		case "ent", "pent":
			if !strings.Contains(c.Text, "&") {
				c.Text = text(c.Text, false)
			} else {
				c.Text = entRef.ReplaceAllStringFunc(c.Text, name)
			}
		case "att":
			if c.AttType == "CDATA" {
				c.Default = text(c.Default, false)
			}
		}
	}
}

type encCase struct {
	Enc   int
	Name  string
	UTF8  []byte
	Bytes []byte
	Doc   *Doc
	Kind  string
	OK    bool
}

func mixCase(t *rapid.T, s string) string {
	switch ri(t, 0, 3) {
	case 0:
		return strings.ToUpper(s)
	case 1:
		b := []byte(s)
		for i := range b {
			if rb(t) {
				b[i] = strings.ToUpper(s)[i]
			}
		}
		return string(b)
	}
	return s
}

func genEncCase(t *rapid.T) encCase {
	c := encCase{Enc: uni(t, len(encTable))}
	if chance(t, 1, 3) {
		c.Enc = uni(t, 4)
	}
	x := encTable[c.Enc]
	c.Name = mixCase(t, pick(t, x.names))
	d := genDoc(t, GenOpt{MaxElems: 6})
	x.adapt(d)
	if chance(t, 1, 8) {
		// cross the sizes of buffers
		pool := x.chars()
		var b strings.Builder
		p, step := uni(t, len(pool)), ri(t, 0, 40)
		most := 3000
		if chance(t, 1, 60) {
			most = 40000
		}
		for n := ri(t, 500, most); n > 0; n-- {
			b.WriteRune(pool[p%len(pool)])
			p += step
			if n%17 == 0 {
				b.WriteString("abc\n"[:n%5])
			}
		}
		d.Root.Kids = norm(append(d.Root.Kids, &N{K: KText, Text: b.String()}))
	}
	c.Doc = d
	c.Kind = "declared"
	d.Decl = &XMLDecl{Version: "1.0", Encoding: c.Name, Standalone: pick(t, []string{"", "", "yes", "no"})}
	bom := ""
	switch {
	case x.u16:
		c.Kind = pick(t, []string{"declared", "BOM", "BOM, declared", "BOM, declared as UTF-16"})
		switch c.Kind {
		case "BOM":
			d.Decl = nil
			if rb(t) {
				d.Decl = &XMLDecl{Version: "1.0"}
			}
		case "BOM, declared as UTF-16":
			d.Decl.Encoding = mixCase(t, "utf-16")
		}
	case x.names[0] == "utf-8":
		c.Kind = pick(t, []string{"BOM", "BOM, declared", "declared"})
		if c.Kind != "declared" {
			bom = "\ufeff"
		}
		if c.Kind == "BOM" {
			d.Decl = nil
		}
	}
	s := newSpeller(t)
	s.canEnc = x.canEnc
	s.document(d)
	c.UTF8 = []byte(s.b.String())
	e := x.e
	if x.u16 {
		// with or without a byte order mark, as decided here
		order := unicode.BigEndian
		if x.names[0] == "utf-16le" || x.names[0] == "utf-16" && rb(t) {
			order = unicode.LittleEndian
		}
		e = unicode.UTF16(order, unicode.IgnoreBOM)
		if strings.HasPrefix(c.Kind, "BOM") {
			bom = "\ufeff"
		}
	}
	y := &encInfo{names: x.names, e: e}
	c.Bytes, c.OK = y.encode(bom + string(c.UTF8))
	return c
}

func checkEnc(c encCase) Out {
	x := encTable[c.Enc]
	out := Out{Labels: []string{x.names[0], c.Kind}, Sample: fmt.Sprintf("%s (%s): %s", c.Name, c.Kind, c.Bytes)}
	if !c.OK {
		out.Labels = []string{"not encodable: " + x.names[0]}
		return out
	}
	beyond := 0
	for _, r := range string(c.UTF8) {
		if r >= 0x80 {
			beyond++
		}
	}
	out.NonTrivial = beyond >= 3
	ctx := func(err error) error {
		if err == nil {
			return nil
		}
		return errorf("encoding %s (%s): %v\nin UTF-8: %s", c.Name, c.Kind, err, show(c.UTF8))
	}
	if out.Err = ctx(checkTree(c.Bytes, c.Doc, canonOpt{noDTD: true})); out.Err != nil {
		return out
	}
	if out.Err = ctx(checkStream(c.Bytes, c.Doc, len(c.UTF8)%2 == 0)); out.Err != nil {
		return out
	}
	// what is written is in the encoding that the document declares, and
	// says the same
	doc, err := helium.Parse(c.Bytes)
	if err != nil {
		return failf("%v", err)
	}
	s, err := doc.XMLString()
	if err != nil {
		out.Err = ctx(errorf("serialising: %v", err))
		return out
	}
	if err := checkTree([]byte(s), c.Doc, canonOpt{noDTD: true, dumped: true}); err != nil {
		out.Err = ctx(errorf("after serialising: %v", err))
		return out
	}
	name := ""
	if c.Doc.Decl != nil {
		name = c.Doc.Decl.Encoding
	}
	out.Err = ctx(checkWritten([]byte(s), name, c.Doc))
	return out
}

func findEnc(name string) *encInfo {
	for _, x := range encTable {
		for _, n := range x.names {
			if strings.EqualFold(n, name) {
				return x
			}
		}
	}
	return nil
}

// checkWritten decodes what has been written and compares it with the help
// of the reference parser
func checkWritten(b []byte, name string, want *Doc) error {
	text := string(b)
	if name != "" && !strings.EqualFold(name, "utf-8") && !strings.EqualFold(name, "utf8") {
		x := findEnc(name)
		if x == nil {
			return errorf("no encoding %q", name)
		}
		if x.names[0] == "utf-16" && !bytes.HasPrefix(b, []byte{0xFE, 0xFF}) && !bytes.HasPrefix(b, []byte{0xFF, 0xFE}) {
			return errorf("UTF-16 without a byte order mark is written")
		}
		d, err := x.e.NewDecoder().Bytes(b)
		if err != nil {
			return errorf("the output is not in %s: %v", name, err)
		}
		text = strings.TrimPrefix(string(d), "\ufeff")
	}
	if !utf8.ValidString(text) || strings.Contains(text, "\ufffd") {
		return errorf("the output is not in %q: %s", name, show([]byte(text)))
	}
	r := refParse([]byte(text))
	if r.V == vBad {
		return errorf("the output is not well-formed: %s: %s", r.Msg, show([]byte(text)))
	}
	if r.V == vOK {
		d := *want
		if d.DTD == nil {
			r.Doc.Before, r.Doc.Mid = append(r.Doc.Before, r.Doc.Mid...), nil
		}
		a, b := d.canon(canonOpt{dumped: true}), r.Doc.canon(canonOpt{dumped: true})
		if a != b {
			return errorf("the output says something else: %s\nit is %s", diffLines(a, b), show([]byte(text)))
		}
	}
	return nil
}

// ---- unknown names ----

type encName struct {
	Name string
	Src  []byte
}

func genEncName(t *rapid.T) encName {
	var n string
	switch ri(t, 0, 3) {
	case 0:
		n = pick(t, []string{"x-none", "ebcdic-us", "foo", "utf-9", "utf-7x", "iso-8859-99", "windows-9999", "big55", "none", "a", "utf", "iso", "utf-8-8", "unknown-8bit", "x"})
	case 1:
		// close to a name that is known
		x := encTable[uni(t, len(encTable))]
		n = pick(t, x.names)
		switch ri(t, 0, 3) {
		case 0:
			n += pick(t, []string{"x", "-", ".", "_", "0x", "-foo"})
		case 1:
			n = "q" + n
		case 2:
			i := uni(t, len(n))
			n = n[:i] + "zq" + n[i:]
		default:
			n = n[:len(n)-1] + "z"
		}
	default:
		n = "z" + pick(t, []string{"a", "B", "q"})
		for k := ri(t, 0, 8); k > 0; k-- {
			n += string(pick(t, []rune("abcXYZ019._-")))
		}
	}
	s := fmt.Sprintf("<?xml version='1.0' encoding='%s'?><a>%s</a>", mixCase(t, n), pick(t, []string{"", "x", "é", "&#233;"}))
	return encName{n, []byte(s)}
}

// ---- documents that are not in the encoding they declare ----

type encClash struct {
	Src  []byte
	UTF8 string
	Kind string
}

func genEncClash(t *rapid.T) encClash {
	x := encTable[uni(t, len(encTable))]
	for x.u16 {
		x = encTable[uni(t, len(encTable))]
	}
	c := encClash{Kind: pick(t, []string{"UTF-16", "UTF-16 with BOM", "not UTF-16"})}
	d := &XMLDecl{Version: "1.0", Encoding: mixCase(t, pick(t, x.names))}
	if c.Kind == "not UTF-16" {
		d.Encoding = mixCase(t, pick(t, encTable[uni(t, 3)].names))
	}
	c.UTF8 = spellDecl(t, d) + pick(t, declBodies)
	if rb(t) {
		doc := genDoc(t, GenOpt{MaxElems: 3})
		doc.Decl = d
		c.UTF8 = string(spell(t, doc))
	}
	c.Src = []byte(c.UTF8)
	if c.Kind != "not UTF-16" {
		order := unicode.BigEndian
		if rb(t) {
			order = unicode.LittleEndian
		}
		bom := ""
		if c.Kind == "UTF-16 with BOM" {
			bom = "\ufeff"
		}
		c.Src, _ = unicode.UTF16(order, unicode.IgnoreBOM).NewEncoder().Bytes([]byte(bom + c.UTF8))
	}
	return c
}

// ---- documents made by calls ----

type encAPI struct {
	Enc  int
	Name string
	Text string
	Att  string
	Def  string // text of an entity
	Comm string
}

func checkEncAPI(c encAPI) Out {
	x := encTable[c.Enc]
	out := Out{Labels: []string{x.names[0]}, Sample: fmt.Sprintf("%s: text %q, attribute %q, comment %q", c.Name, c.Text, c.Att, c.Comm)}
	un := 0
	for _, r := range c.Text + c.Att {
		if !x.canEnc(r) {
			un++
		}
	}
	out.NonTrivial = un > 0 || x.u16
	doc := helium.NewDocument("1.0", c.Name, helium.StandaloneImplicitNo)
	root, err := doc.CreateElement("r")
	if err != nil {
		return failf("%v", err)
	}
	if err := doc.SetDocumentElement(root); err != nil {
		return failf("%v", err)
	}
	want := &Doc{Decl: &XMLDecl{Version: "1.0", Encoding: c.Name}, Root: &N{K: KElem, Name: "r"}}
	if err := root.SetAttribute("a", (&builder{t: &tape{}}).refForm(c.Att)); err != nil {
		return failf("%v", err)
	}
	want.Root.Attrs = []Attr{{"a", c.Att}}
	if err := root.AddContent([]byte(c.Text)); err != nil {
		return failf("%v", err)
	}
	want.Root.Kids = []*N{{K: KText, Text: c.Text}}
	literal := true // everything that can not be a reference can be encoded
	if c.Comm != "" {
		for _, r := range c.Comm {
			literal = literal && x.canEnc(r)
		}
		n, err := doc.CreateComment([]byte(c.Comm))
		if err != nil {
			return failf("%v", err)
		}
		if err := root.AddChild(n); err != nil {
			return failf("%v", err)
		}
		want.Root.Kids = append(want.Root.Kids, &N{K: KComm, Text: c.Comm})
	}
	want.Root.Kids = norm(want.Root.Kids)
	s, err := doc.XMLString()
	if err != nil {
		if literal {
			return failf("serialising in %s: %v", c.Name, err)
		}
		out.Labels = append(out.Labels, "refused: a comment can not be encoded")
		return out
	}
	if out.Err = checkTree([]byte(s), want, canonOpt{}); out.Err != nil {
		out.Err = errorf("encoding %s: %v", c.Name, out.Err)
		return out
	}
	out.Err = checkWritten([]byte(s), c.Name, want)
	return out
}

func init() {
	prop("P12", "at least 3 characters beyond ASCII (encoded), every unknown name and every clash, at least one character the encoding lacks (written)")

	reg("P12", "encoded", 20000, 900000, genEncCase, checkEnc)

	reg("P12", "unknown", 4000, 100000, genEncName, func(c encName) Out {
		out := Out{NonTrivial: true, Sample: string(c.Src)}
		if findEnc(c.Name) != nil {
			out.NonTrivial = false
			return out
		}
		out.Err = mustReject(c.Src, "unknown encoding "+q(c.Name))
		if out.Err == nil {
			doc := helium.NewDocument("1.0", c.Name, helium.StandaloneImplicitNo)
			if s, err := doc.XMLString(); err == nil {
				return failf("a document in the unknown encoding %q is written as %q", c.Name, s)
			}
		}
		return out
	})

	reg("P12", "clash", 5000, 200000, genEncClash, func(c encClash) Out {
		out := Out{Labels: []string{c.Kind}, Sample: c.UTF8, NonTrivial: true}
		out.Err = mustReject(c.Src, c.Kind+", and another encoding is declared: "+c.UTF8)
		return out
	})

	reg("P12", "written", 15000, 600000,
		func(t *rapid.T) encAPI {
			c := encAPI{Enc: uni(t, len(encTable))}
			x := encTable[c.Enc]
			c.Name = mixCase(t, x.names[0])
			pool := x.chars()
			mixed := func() string {
				var b strings.Builder
				for n := ri(t, 1, 5); n > 0; n-- {
					if rb(t) {
						b.WriteRune(pool[uni(t, len(pool))])
					} else {
						b.WriteString(genText(t, 1, 2, true))
					}
				}
				return b.String()
			}
			c.Text, c.Att = mixed(), mixed()
			if chance(t, 1, 12) {
				c.Text = strings.Repeat(c.Text, ri(t, 100, 700))
			}
			if chance(t, 1, 3) {
				c.Comm = strings.Replace(strings.Map(func(r rune) rune {
					if r == '\r' || r == '-' {
						return '.'
					}
					return r
				}, mixed()), "-", "", -1)
			}
			return c
		}, checkEncAPI)
}
