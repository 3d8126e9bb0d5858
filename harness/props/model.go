package props

import (
	"fmt"
	"sort"
	"strings"
)

// The model of a document: what it says, not how it is written.

// Node kinds
const (
	KElem = "e"
	KText = "t"
	KComm = "c"
	KPI   = "p"
	KRef  = "r" // reference to a declared general entity
)

type NSDecl struct{ Prefix, URI string }

type Attr struct{ Name, Value string }

// N is a node of a document.
type N struct {
	K     string
	Name  string // qualified name of an element, target of a PI, name of an entity
	Text  string // text, comment, PI data
	URI   string // resolved namespace of an element
	NS    []NSDecl
	Attrs []Attr
	Kids  []*N
}

// XMLDecl is an XML declaration
type XMLDecl struct {
	Version    string
	Encoding   string
	Standalone string // "", "yes", "no"
}

// Decl is a declaration in the internal subset
type Decl struct {
	K string // "elem", "att", "ent", "pent", "comm", "pi"
	// element
	Name  string
	Model *CM // nil for EMPTY / ANY
	Type  string
	// attribute: Name is the element, Att the attribute
	Att     string
	AttType string // CDATA ID … or ENUM
	Enum    []string
	Def     string // "#REQUIRED" "#IMPLIED" "#FIXED" ""
	Default string // normalised default value (expanded)
	// entity: Text is the replacement text; comment, PI: Text
	Text string
}

// CM is a content model
type CM struct {
	Op   string // "name", "pcdata", "seq", "or"
	Name string
	Occ  string // "", "?", "*", "+"
	Kids []*CM
}

// DTD is a document type declaration with an internal subset
type DTD struct {
	Name  string
	Decls []*Decl
}

// Doc is a document.
type Doc struct {
	Decl   *XMLDecl
	Before []*N // before the DOCTYPE
	DTD    *DTD
	Mid    []*N // between DOCTYPE and root
	Root   *N
	After  []*N
}

func local(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[i+1:]
	}
	return name
}

func prefixOf(name string) string {
	if i := strings.IndexByte(name, ':'); i >= 0 {
		return name[:i]
	}
	return ""
}

// norm merges adjacent text and drops empty text
func norm(kids []*N) []*N {
	var out []*N
	for _, k := range kids {
		if k.K == KText {
			if k.Text == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].K == KText {
				out[n-1] = &N{K: KText, Text: out[n-1].Text + k.Text}
				continue
			}
		}
		out = append(out, k)
	}
	return out
}

const xmlNS = "http://www.w3.org/XML/1998/namespace"

// resolve sets the URI of every element from the declarations in scope. It
// returns an error for a prefix that is not declared.
func (n *N) resolve(scope []NSDecl) error {
	if n.K != KElem {
		return nil
	}
	scope = append(scope[:len(scope):len(scope)], n.NS...)
	p := prefixOf(n.Name)
	n.URI = ""
	found := false
	for i := len(scope) - 1; i >= 0; i-- {
		if scope[i].Prefix == p {
			n.URI = scope[i].URI
			found = true
			break
		}
	}
	if p == "xml" {
		n.URI = xmlNS
		found = true
	}
	if p != "" && !found {
		return fmt.Errorf("prefix %q is not declared", p)
	}
	for _, k := range n.Kids {
		if err := k.resolve(scope); err != nil {
			return err
		}
	}
	return nil
}

// ---- canonical form ----

type canonOpt struct {
	noNS   bool
	noDTD  bool
	noDecl bool
	dumped bool // the document may have been serialised
}

func canonNode(b *strings.Builder, n *N, ind int, o canonOpt) {
	for i := 0; i < ind && i < 40; i++ {
		b.WriteByte(' ')
	}
	switch n.K {
	case KElem:
		fmt.Fprintf(b, "<%s", n.Name)
		if !o.noNS {
			fmt.Fprintf(b, " {%s}", n.URI)
			for _, d := range n.NS {
				fmt.Fprintf(b, " xmlns:%s=%q", d.Prefix, d.URI)
			}
		}
		for _, a := range n.Attrs {
			fmt.Fprintf(b, " %s=%q", a.Name, a.Value)
		}
		b.WriteString("\n")
		for _, k := range norm(n.Kids) {
			canonNode(b, k, ind+1, o)
		}
		for i := 0; i < ind && i < 40; i++ {
			b.WriteByte(' ')
		}
		b.WriteString("/\n")
	case KText:
		fmt.Fprintf(b, "T %q\n", n.Text)
	case KComm:
		fmt.Fprintf(b, "C %q\n", n.Text)
	case KPI:
		fmt.Fprintf(b, "P %s %q\n", n.Name, n.Text)
	case KRef:
		fmt.Fprintf(b, "R %s\n", n.Name)
	default:
		fmt.Fprintf(b, "? %s\n", n.K)
	}
}

func (c *CM) String() string {
	if c == nil {
		return "-"
	}
	switch c.Op {
	case "name":
		return c.Name + c.Occ
	case "pcdata":
		return "#PCDATA" + c.Occ
	}
	var parts []string
	for _, k := range c.Kids {
		parts = append(parts, k.String())
	}
	sep := ","
	if c.Op == "or" {
		sep = "|"
	}
	return "(" + strings.Join(parts, sep) + ")" + c.Occ
}

func (d *Decl) String() string {
	switch d.K {
	case "elem":
		return fmt.Sprintf("ELEMENT %s %s %s", d.Name, d.Type, d.Model.lang())
	case "att":
		return fmt.Sprintf("ATTLIST %s %s %s %v %s %q", d.Name, d.Att, d.AttType, d.Enum, d.Def, d.Default)
	case "ent":
		return fmt.Sprintf("ENTITY %s %q", d.Name, d.Text)
	case "pent":
		return fmt.Sprintf("PENTITY %s %q", d.Name, d.Text)
	case "raw":
		return d.Text
	case "comm":
		return fmt.Sprintf("COMMENT %q", d.Text)
	case "pi":
		return fmt.Sprintf("PI %s %q", d.Name, d.Text)
	}
	return "?" + d.K
}

// bound drops the declarations that are not binding because the same thing
// has been declared before
func bound(l []*Decl) []*Decl {
	seen := map[string]bool{}
	var out []*Decl
	for _, d := range l {
		k := ""
		switch d.K {
		case "elem", "ent", "pent":
			k = d.K + " " + d.Name
		case "att":
			k = d.K + " " + d.Name + " " + d.Att
		}
		if k != "" {
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		out = append(out, d)
	}
	return out
}

func (d *Doc) canon(o canonOpt) string {
	var b strings.Builder
	if !o.noDecl {
		v, e, s := "", "", ""
		if d.Decl != nil {
			v, e, s = d.Decl.Version, d.Decl.Encoding, d.Decl.Standalone
			if e == "utf8" {
				e = "" // Document.Encoding() does not tell them apart
			}
		}
		if o.dumped && v == "" {
			v = "1.0" // serialising always writes a declaration
		}
		fmt.Fprintf(&b, "XMLDECL %q %q %q\n", v, e, s)
	}
	for _, n := range d.Before {
		canonNode(&b, n, 0, o)
	}
	if d.DTD != nil && !o.noDTD {
		fmt.Fprintf(&b, "DOCTYPE %s\n", d.DTD.Name)
		for _, x := range bound(d.DTD.Decls) {
			fmt.Fprintf(&b, " %s\n", x)
		}
	}
	for _, n := range d.Mid {
		canonNode(&b, n, 0, o)
	}
	if d.Root != nil {
		canonNode(&b, d.Root, 0, o)
	}
	for _, n := range d.After {
		canonNode(&b, n, 0, o)
	}
	return b.String()
}

// diffLines shows the first difference of two canonical forms
func diffLines(want, got string) string {
	w, g := strings.Split(want, "\n"), strings.Split(got, "\n")
	for i := 0; i < len(w) || i < len(g); i++ {
		var a, b string
		if i < len(w) {
			a = w[i]
		}
		if i < len(g) {
			b = g[i]
		}
		if a != b {
			return fmt.Sprintf("line %d of the canonical form:\n want %s\n got  %s", i+1, clip(a, 800), clip(b, 800))
		}
	}
	return "equal"
}

func (n *N) each(f func(n *N, depth int)) { n.eachD(f, 0) }
func (n *N) eachD(f func(n *N, depth int), d int) {
	f(n, d)
	for _, k := range n.Kids {
		k.eachD(f, d+1)
	}
}

func (d *Doc) eachTop(f func(n *N)) {
	for _, l := range [][]*N{d.Before, d.Mid, {d.Root}, d.After} {
		for _, n := range l {
			if n != nil {
				f(n)
			}
		}
	}
}

func (d *Doc) count() (nodes, depth, kinds int) {
	ks := map[string]bool{}
	d.eachTop(func(t *N) {
		t.each(func(n *N, dd int) {
			nodes++
			ks[n.K] = true
			if dd+1 > depth {
				depth = dd + 1
			}
		})
	})
	return nodes, depth, len(ks)
}

func sortedKeys(m map[string]bool) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
