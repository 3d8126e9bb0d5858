package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Elements within entities: what is in scope is decided by where the entity
// is referred to. Used by P07 (namespaces) and P10 (defaults).

type entElem struct {
	Src  []byte
	Want []string // elements and references, in order
	Bad  string   // why it is an error
	Uses int      // references
}

type entElemGen struct {
	t      *rapid.T
	ns     bool // with namespaces, otherwise with attributes
	ents   map[string][]*N
	names  []string
	atts   map[string][]*Decl // binding declarations with a default, by element
	tok    map[string]bool    // attributes of a tokenized type, as "element attribute"
	prefix []string
	bad    bool // prefixes that may be out of scope
	left   int
}

func (g *entElemGen) elem(refs []string, depth int) *N {
	t := g.t
	n := &N{K: KElem, Name: pick(t, []string{"a", "b", "c"})}
	if g.ns {
		if chance(t, 1, 3) {
			seen := map[string]bool{}
			for i := ri(t, 1, 2); i > 0; i-- {
				d := NSDecl{pick(t, g.prefix), pick(t, []string{"u1", "u2", "u3"})}
				if d.Prefix == "" && chance(t, 1, 4) {
					d.URI = ""
				}
				if !seen[d.Prefix] {
					seen[d.Prefix] = true
					n.NS = append(n.NS, d)
				}
			}
		}
		if p := pick(t, g.prefix); p != "" && (rb(t) || g.bad) {
			n.Name = p + ":" + n.Name
		}
	} else {
		seen := map[string]bool{}
		for i := ri(t, 0, 2); i > 0; i-- {
			a := pick(t, []string{"x", "y", "z", "w"})
			if !seen[a] {
				seen[a] = true
				n.Attrs = append(n.Attrs, Attr{a, pick(t, []string{"", "1", "v w", "  v \t\nw ", " ", "\n1"})})
			}
		}
	}
	if depth < 4 {
		n.Kids = g.content(refs, depth+1)
	}
	return n
}

func (g *entElemGen) content(refs []string, depth int) (l []*N) {
	t := g.t
	for i := ri(t, 0, 3); i > 0 && g.left > 0; i-- {
		g.left--
		switch k := ri(t, 0, 5); {
		case k <= 1 && len(refs) > 0:
			l = append(l, &N{K: KRef, Name: pick(t, refs)})
		case k == 2:
			l = append(l, &N{K: KText, Text: "t"})
		default:
			l = append(l, g.elem(refs, depth))
		}
	}
	return
}

// rawXML writes nodes the plain way
func rawXML(b *strings.Builder, l []*N) {
	for _, n := range l {
		switch n.K {
		case KText:
			b.WriteString(n.Text)
		case KRef:
			b.WriteString("&" + n.Name + ";")
		case KElem:
			b.WriteString("<" + n.Name)
			for _, d := range n.NS {
				if d.Prefix == "" {
					b.WriteString(" xmlns='" + d.URI + "'")
				} else {
					b.WriteString(" xmlns:" + d.Prefix + "='" + d.URI + "'")
				}
			}
			for _, a := range n.Attrs {
				b.WriteString(" " + a.Name + "='" + a.Value + "'")
			}
			if len(n.Kids) == 0 {
				b.WriteString("/>")
				continue
			}
			b.WriteString(">")
			rawXML(b, n.Kids)
			b.WriteString("</" + n.Name + ">")
		}
	}
}

// follow lists what is reported for the nodes
func (g *entElemGen) follow(c *entElem, l []*N, scope map[string]string, depth int) {
	for _, n := range l {
		if c.Bad != "" {
			return
		}
		switch n.K {
		case KRef:
			c.Uses++
			g.follow(c, g.ents[n.Name], scope, depth+1)
			c.Want = append(c.Want, "ref "+n.Name)
		case KElem:
			cur := map[string]string{}
			for k, v := range scope {
				cur[k] = v
			}
			for _, d := range n.NS {
				cur[d.Prefix] = d.URI
			}
			p := prefixOf(n.Name)
			uri, ok := cur[p]
			if p != "" && !ok {
				c.Bad = "the prefix " + p + " is not in scope"
				return
			}
			var as []EvAttr
			seen := map[string]bool{}
			for _, a := range n.Attrs {
				seen[a.Name] = true
				as = append(as, EvAttr{a.Name, g.norm(n.Name, a.Name, a.Value), false})
			}
			for _, d := range g.atts[n.Name] {
				if !seen[d.Att] {
					as = append(as, EvAttr{d.Att, g.norm(n.Name, d.Att, d.Default), true})
				}
			}
			c.Want = append(c.Want, entElemStart(n.Name, uri, n.NS, as))
			g.follow(c, n.Kids, cur, depth)
			c.Want = append(c.Want, fmt.Sprintf("end %s {%s}", n.Name, uri))
		}
	}
}

// norm is the normalised value of an attribute
func (g *entElemGen) norm(elem, att, v string) string {
	if g.tok[elem+" "+att] {
		return strings.Join(strings.Fields(v), " ")
	}
	return strings.NewReplacer("\t", " ", "\n", " ").Replace(v)
}

func entElemStart(name, uri string, ns []NSDecl, as []EvAttr) string {
	// the order of the defaults is not laid down
	var l []string
	defs := map[string]bool{}
	for _, a := range as {
		s := fmt.Sprintf("%s=%q", a.Name, a.Value)
		if a.Default {
			defs[s] = true
		} else {
			l = append(l, s)
		}
	}
	return fmt.Sprintf("start %s {%s} %v %v defaults %v", name, uri, ns, l, sortedKeys(defs))
}

func genEntElem(t *rapid.T, ns bool) entElem {
	g := &entElemGen{t: t, ns: ns, ents: map[string][]*N{}, atts: map[string][]*Decl{}, tok: map[string]bool{}, prefix: []string{"", "p", "q"}, bad: chance(t, 1, 3), left: ri(t, 3, 25)}
	var decls []string
	chain := chance(t, 1, 4) // each within the next
	n := ri(t, 1, 4)
	if chain {
		n = ri(t, 3, 14)
		g.left += n
	}
	for i := n; i > 0; i-- {
		name := fmt.Sprint("e", i)
		x := g.content(g.names, 1)
		if k := len(g.names); chain && k > 0 {
			// the last one only, or else there would be too much of it
			dropRefs(x)
			ref := &N{K: KRef, Name: g.names[k-1]}
			if e := g.elem(nil, 4); rb(t) {
				e.Kids = append(e.Kids, ref)
				ref = e
			}
			at := uni(t, len(x)+1)
			x = append(x[:at:at], append([]*N{ref}, x[at:]...)...)
		}
		g.ents[name] = x
		g.names = append(g.names, name)
		var b strings.Builder
		rawXML(&b, x)
		decls = append(decls, "<!ENTITY "+name+` "`+b.String()+`">`)
	}
	if !ns {
		seen := map[string]bool{}
		for i := ri(t, 1, 5); i > 0; i-- {
			d := &Decl{Name: pick(t, []string{"a", "b", "c"}), Att: pick(t, []string{"x", "y", "z"}), Default: pick(t, []string{"d1", "d2", "", " d1  d2\n"})}
			typ := pick(t, []string{"CDATA", "CDATA", "NMTOKENS", "ID", "IDREFS", "(x|y)", "NOTATION (n)"})
			def := "'" + d.Default + "'"
			none := chance(t, 1, 5)
			if none {
				def = "#IMPLIED"
			} else if chance(t, 1, 5) {
				def = "#FIXED " + def
			}
			at := uni(t, len(decls)+1)
			decls = append(decls[:at:at], append([]string{""}, decls[at:]...)...)
			decls[at] = "<!ATTLIST " + d.Name + " " + d.Att + " " + typ + " " + def + ">"
			// the first of them binds: it may be declared once only
			if seen[d.Name+d.Att] {
				decls = append(decls[:at:at], decls[at+1:]...)
				continue
			}
			seen[d.Name+d.Att] = true
			g.tok[d.Name+" "+d.Att] = typ != "CDATA"
			if !none {
				g.atts[d.Name] = append(g.atts[d.Name], d)
			}
		}
	}
	g.left = ri(t, 3, 15)
	root := &N{K: KElem, Name: "r", Kids: g.content(g.names, 0)}
	for _, e := range g.names {
		if chance(t, 1, 3) {
			at := uni(t, len(root.Kids)+1)
			root.Kids = append(root.Kids[:at:at], append([]*N{{K: KRef, Name: e}}, root.Kids[at:]...)...)
		}
	}
	if g.ns && chance(t, 4, 5) {
		for _, p := range g.prefix {
			if chance(t, 2, 3) {
				root.NS = append(root.NS, NSDecl{p, "u" + p})
			}
		}
	}
	c := entElem{}
	g.follow(&c, []*N{root}, nil, 0)
	var b strings.Builder
	b.WriteString("<!DOCTYPE r [" + strings.Join(decls, "\n") + "]>\n")
	rawXML(&b, []*N{root})
	c.Src = []byte(b.String())
	return c
}

// dropRefs replaces the references in l
func dropRefs(l []*N) {
	for _, n := range l {
		if n.K == KRef {
			n.K, n.Name, n.Text = KText, "", "t"
		}
		dropRefs(n.Kids)
	}
}

func checkEntElem(c entElem) Out {
	out := Out{NonTrivial: c.Uses > 0, Sample: string(c.Src)}
	switch {
	case c.Bad != "":
		out.Labels = append(out.Labels, "a prefix is not in scope")
	case c.Uses > 3:
		out.Labels = append(out.Labels, "more than 3 references")
	case c.Uses > 0:
		out.Labels = append(out.Labels, "references")
	}
	for _, fwd := range []bool{true, false} {
		r := newRecorder(fwd)
		_, err := parseRec(c.Src, r)
		if c.Bad != "" {
			if err == nil {
				return failf("accepted although %s: %s", c.Bad, show(c.Src))
			}
			continue
		}
		if err != nil {
			return failf("rejected: %v: %s", err, show(c.Src))
		}
		var got []string
		for _, e := range r.evs {
			switch e.K {
			case "start":
				got = append(got, entElemStart(e.Name, e.URI, e.NS, e.Attrs))
			case "end":
				got = append(got, fmt.Sprintf("end %s {%s}", e.Name, e.URI))
			case "ref":
				got = append(got, "ref "+e.Name)
			}
		}
		if a, b := strings.Join(c.Want, "\n"), strings.Join(got, "\n"); a != b {
			return failf("wrong events: %s\ndocument: %s", diffLines(a, b), show(c.Src))
		}
	}
	return out
}

func init() {
	reg("P07", "entities", 15000, 700000, func(t *rapid.T) entElem { return genEntElem(t, true) }, checkEntElem)
	reg("P10", "entities", 10000, 500000, func(t *rapid.T) entElem { return genEntElem(t, false) }, checkEntElem)
}
