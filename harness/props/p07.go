package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P07: namespace prefixes resolve to the innermost declaration in scope.

type nsGen struct {
	t      *rapid.T
	left   int
	wide   bool
	prefix []string
	bad    bool // a prefix that is not in scope has been used
	want   bool // use one
}

// elem draws an element. scope is what is declared outside of it.
func (g *nsGen) elem(scope map[string]string, past []string, depth int) *N {
	t := g.t
	n := &N{K: KElem}
	cur := map[string]string{}
	for k, v := range scope {
		cur[k] = v
	}
	if chance(t, 2, 5) {
		max := 3
		if g.wide {
			max = 14
		}
		seen := map[string]bool{}
		for i := ri(t, 1, max); i > 0; i-- {
			d := NSDecl{Prefix: pick(t, g.prefix), URI: pick(t, uris)}
			if g.wide && chance(t, 1, 2) {
				d.Prefix = fmt.Sprintf("n%d", ri(t, 0, 20))
			}
			if d.Prefix == "" && chance(t, 1, 3) {
				d.URI = ""
			}
			if seen[d.Prefix] {
				continue
			}
			seen[d.Prefix] = true
			n.NS = append(n.NS, d)
			cur[d.Prefix] = d.URI
			past = append(past[:len(past):len(past)], d.Prefix)
		}
	}
	n.Name = pick(t, []string{"a", "b", "c"})
	var ps []string
	for _, k := range sortedKeys2(cur) {
		if k != "" {
			ps = append(ps, k)
		}
	}
	switch {
	case g.want && !g.bad && chance(t, 1, 6):
		// a prefix that is not in scope, most often one that is in use
		// somewhere else
		p := pick(t, append(append([]string{"zz"}, g.prefix...), past...))
		if p == "" {
			p = "zy"
		}
		if _, ok := cur[p]; ok {
			p = "zx"
		}
		n.Name = p + ":" + n.Name
		g.bad = true
		n.URI = "?"
	case len(ps) > 0 && chance(t, 3, 5):
		p := pick(t, ps)
		n.Name = p + ":" + n.Name
		n.URI = cur[p]
	case chance(t, 1, 25):
		n.Name = "xml:" + n.Name
		n.URI = xmlNS
	default:
		n.URI = cur[""]
	}
	for i := ri(t, 0, 2); i > 0; i-- {
		name := fmt.Sprintf("k%d", i)
		if len(ps) > 0 && chance(t, 1, 3) {
			name = ps[0] + ":" + name
		}
		if chance(t, 1, 12) && i == 1 {
			name = "xml:lang"
		}
		n.Attrs = append(n.Attrs, Attr{name, pick(t, []string{"", "v", "p:x", "http://a/"})})
	}
	if depth < 90 {
		for i := ri(t, 0, 4); i > 0 && g.left > 0; i-- {
			g.left--
			if chance(t, 1, 6) {
				n.Kids = append(n.Kids, &N{K: KText, Text: "t"})
			}
			n.Kids = append(n.Kids, g.elem(cur, past, depth+1))
		}
	}
	n.Kids = norm(n.Kids)
	return n
}

func sortedKeys2(m map[string]string) []string {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return sortedKeys(b)
}

func genNS(t *rapid.T, want bool) (*Doc, bool) {
	g := &nsGen{t: t, left: ri(t, 1, 25), wide: chance(t, 1, 5), want: want}
	if chance(t, 1, 30) {
		g.left = ri(t, 25, 300)
	}
	g.prefix = []string{"", "p", "q"}
	if rb(t) {
		g.prefix = append(g.prefix, "r", "é", "p-q.1", "P")
	}
	g.prefix = lookalikes(t, g.prefix)
	root := g.elem(nil, nil, 0)
	return &Doc{Root: root}, g.bad
}

// nsEvents checks the namespace part of the events
func nsEvents(src []byte, root *N, fwd bool) error {
	r := newRecorder(fwd)
	if _, err := parseRec(src, r); err != nil {
		return errorf("rejected with a handler: %v\n%s", err, show(src))
	}
	var want []string
	var visit func(n *N)
	visit = func(n *N) {
		if n.K != KElem {
			return
		}
		want = append(want, fmt.Sprintf("start %s {%s} %v", n.Name, n.URI, n.NS))
		for _, k := range n.Kids {
			visit(k)
		}
		want = append(want, fmt.Sprintf("end %s {%s}", n.Name, n.URI))
	}
	visit(root)
	var got []string
	for _, e := range r.evs {
		switch e.K {
		case "start":
			got = append(got, fmt.Sprintf("start %s {%s} %v", e.Name, e.URI, e.NS))
		case "end":
			got = append(got, fmt.Sprintf("end %s {%s}", e.Name, e.URI))
		}
	}
	a, b := strings.Join(want, "\n"), strings.Join(got, "\n")
	if a != b {
		return errorf("wrong events: %s\ndocument: %s", diffLines(a, b), show(src))
	}
	return nil
}

// attrNS checks what prefixed attributes report
func checkNSTree(doc *helium.Document) error {
	return helium.Walk(doc, func(n helium.Node) error {
		e, ok := n.(*helium.Element)
		if !ok {
			return nil
		}
		for _, a := range e.Attributes() {
			if strings.HasPrefix(a.Name(), "xmlns") {
				return errorf("a namespace declaration is listed as an attribute: %s", a.Name())
			}
		}
		return nil
	})
}

func init() {
	prop("P07", "at least 3 elements and 2 namespace declarations, a reference (entities), or (undeclared) a prefix that is not in scope is used")

	reg("P07", "scopes", 40000, 2000000,
		func(t *rapid.T) docCase {
			d, _ := genNS(t, false)
			return docCase{Src: spell(t, d), Doc: d}
		},
		func(c docCase) Out {
			elems, decls := 0, 0
			shadow, undecl := false, false
			var visit func(n *N, scope map[string]string)
			visit = func(n *N, scope map[string]string) {
				if n.K != KElem {
					return
				}
				elems++
				decls += len(n.NS)
				cur := map[string]string{}
				for k, v := range scope {
					cur[k] = v
				}
				for _, d := range n.NS {
					if u, ok := scope[d.Prefix]; ok && u != d.URI {
						shadow = true
					}
					if d.URI == "" {
						undecl = true
					}
					cur[d.Prefix] = d.URI
				}
				for _, k := range n.Kids {
					visit(k, cur)
				}
			}
			visit(c.Doc.Root, nil)
			out := Out{NonTrivial: elems >= 3 && decls >= 2, Sample: string(c.Src)}
			if shadow {
				out.Labels = append(out.Labels, "shadowing")
			}
			if undecl {
				out.Labels = append(out.Labels, "undeclared default")
			}
			if out.Err = checkTree(c.Src, c.Doc, canonOpt{noDTD: true}); out.Err != nil {
				return out
			}
			for _, fwd := range []bool{true, false} {
				if out.Err = nsEvents(c.Src, c.Doc.Root, fwd); out.Err != nil {
					return out
				}
			}
			doc, err := helium.Parse(c.Src)
			if err != nil {
				return failf("%v", err)
			}
			if out.Err = checkNSTree(doc); out.Err != nil {
				return out
			}
			s, err := doc.XMLString()
			if err != nil {
				return failf("serialising: %v", err)
			}
			if err := checkTree([]byte(s), c.Doc, canonOpt{noDTD: true, noDecl: true}); err != nil {
				out.Err = errorf("after serialising: %v", err)
			}
			return out
		})

	type undeclCase struct {
		Src []byte
		Bad bool
	}
	reg("P07", "undeclared", 15000, 700000,
		func(t *rapid.T) undeclCase {
			d, bad := genNS(t, true)
			return undeclCase{spell(t, d), bad}
		},
		func(c undeclCase) Out {
			out := Out{NonTrivial: c.Bad, Sample: string(c.Src)}
			for _, fwd := range []bool{true, false} {
				d, err := helium.Parse(c.Src)
				if !fwd {
					_, err = parseRec(c.Src, newRecorder(false))
					d = nil
				}
				if c.Bad && (err == nil || d != nil) {
					return failf("a prefix that is not in scope is accepted: %s", show(c.Src))
				}
				if !c.Bad && err != nil {
					return failf("rejected: %v: %s", err, show(c.Src))
				}
			}
			return out
		})

	type reservedCase struct {
		Src  []byte
		Doc  *Doc // without the declaration, if that is allowed
		What string
	}
	reg("P07", "reserved", 12000, 600000,
		func(t *rapid.T) reservedCase {
			d, _ := genNS(t, false)
			var elems []*N
			var visit func(n *N)
			visit = func(n *N) {
				if n.K == KElem {
					elems = append(elems, n)
					for _, k := range n.Kids {
						visit(k)
					}
				}
			}
			visit(d.Root)
			e := elems[uni(t, len(elems))]
			old := e.NS
			var ns NSDecl
			c := reservedCase{}
			switch ri(t, 0, 6) {
			case 0, 1:
				ns, c.Doc, c.What = NSDecl{"xml", xmlNS}, d, "xml is bound to its name"
			case 2:
				ns, c.What = NSDecl{"xml", pick(t, []string{"u", "http://www.w3.org/XML/1998/namespace#", "http://www.w3.org/xml/1998/namespace", "http://www.w3.org/2000/xmlns/", "http://www.w3.org/XML/1998/namespac"})}, "xml is bound to another name"
			case 3:
				ns, c.What = NSDecl{"xmlns", pick(t, []string{"u", "http://www.w3.org/2000/xmlns/", xmlNS})}, "xmlns is declared"
			case 4:
				ns, c.What = NSDecl{pick(t, []string{"w", "wé", "W"}), "http://www.w3.org/2000/xmlns/"}, "a prefix is bound to the name of xmlns"
			default:
				ns, c.What = NSDecl{pick(t, []string{"w", "wé", "W", "xml"}), ""}, "a prefix is bound to nothing"
			}
			i := uni(t, len(old)+1)
			e.NS = append(append(append([]NSDecl{}, old[:i]...), ns), old[i:]...)
			c.Src = spell(t, d)
			e.NS = old
			return c
		},
		func(c reservedCase) Out {
			out := Out{NonTrivial: true, Sample: string(c.Src), Labels: []string{c.What}}
			if c.Doc != nil {
				if out.Err = checkTree(c.Src, c.Doc, canonOpt{noDTD: true}); out.Err != nil {
					return out
				}
				out.Err = nsEvents(c.Src, c.Doc.Root, false)
				return out
			}
			if _, err := helium.Parse(c.Src); err == nil {
				return failf("accepted although %s: %s", c.What, show(c.Src))
			}
			if _, err := parseRec(c.Src, newRecorder(false)); err == nil {
				return failf("accepted with a handler although %s: %s", c.What, show(c.Src))
			}
			return out
		})
}
