package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
)

// reading helium's tree through its public accessors

// domNode converts a node and checks its links
func domNode(n helium.Node, depth int) (*N, error) {
	if depth > 20000 {
		return nil, fmt.Errorf("the tree is too deep (a cycle?)")
	}
	switch n.Type() {
	case helium.TextNode:
		return &N{K: KText, Text: string(n.Content())}, nil
	case helium.CommentNode:
		return &N{K: KComm, Text: string(n.Content())}, nil
	case helium.ProcessingInstructionNode:
		return &N{K: KPI, Name: n.Name(), Text: string(n.Content())}, nil
	case helium.EntityRefNode:
		if n.FirstChild() != n.LastChild() {
			return nil, fmt.Errorf("the first and the last child of the reference to %q differ", n.Name())
		}
		return &N{K: KRef, Name: n.Name()}, nil
	case helium.ElementNode:
	default:
		return nil, fmt.Errorf("unexpected node of type %s in the tree", n.Type())
	}
	e, ok := n.(*helium.Element)
	if !ok {
		return nil, fmt.Errorf("element node is a %T", n)
	}
	name := e.LocalName()
	if p := e.Prefix(); p != "" {
		name = p + ":" + name
	}
	if e.Name() != name {
		return nil, fmt.Errorf("Name() is %q, but prefix and local name make %q", e.Name(), name)
	}
	r := &N{K: KElem, Name: name, URI: e.URI()}
	if ns := e.Namespace(); ns != nil && (ns.URI() != e.URI() || ns.Prefix() != e.Prefix()) {
		return nil, fmt.Errorf("Namespace() and URI()/Prefix() of %q differ", name)
	}
	for _, ns := range e.Namespaces() {
		r.NS = append(r.NS, NSDecl{ns.Prefix(), ns.URI()})
	}
	for _, a := range e.Attributes() {
		r.Attrs = append(r.Attrs, Attr{a.Name(), a.Value()})
	}
	kids, err := domKids(e, depth)
	if err != nil {
		return nil, err
	}
	r.Kids = kids
	return r, nil
}

func sameNode(a, b helium.Node) bool { return a == b }

func domKids(p helium.Node, depth int) (l []*N, err error) {
	var prev helium.Node
	for c := p.FirstChild(); c != nil; c = c.NextSibling() {
		if !sameNode(c.Parent(), p) {
			return nil, fmt.Errorf("%s %q does not name its parent %q", c.Type(), c.Name(), p.Name())
		}
		pv := c.PrevSibling()
		if prev == nil && pv != nil || prev != nil && !sameNode(pv, prev) {
			return nil, fmt.Errorf("previous sibling of %s %q is wrong", c.Type(), c.Name())
		}
		k, err := domNode(c, depth+1)
		if err != nil {
			return nil, err
		}
		l = append(l, k)
		prev = c
	}
	last := p.LastChild()
	if prev == nil && last != nil || prev != nil && !sameNode(last, prev) {
		return nil, fmt.Errorf("last child of %q is wrong", p.Name())
	}
	return l, nil
}

func dumpNode(n helium.Node) (string, error) {
	var b strings.Builder
	err := (&helium.Dumper{}).DumpNode(&b, n)
	return b.String(), err
}

func domDTD(d *helium.DTD) (*DTD, error) {
	r := &DTD{Name: d.Name()}
	ents := map[string]*refEnt{}
	for c := d.FirstChild(); c != nil; c = c.NextSibling() {
		switch c.Type() {
		case helium.CommentNode:
			r.Decls = append(r.Decls, &Decl{K: "comm", Text: string(c.Content())})
		case helium.ProcessingInstructionNode:
			r.Decls = append(r.Decls, &Decl{K: "pi", Name: c.Name(), Text: string(c.Content())})
		default:
			s, err := dumpNode(c)
			if err != nil {
				return nil, fmt.Errorf("dumping a declaration: %v", err)
			}
			l, err := parseDeclIn(s, ents)
			if err != nil {
				return nil, fmt.Errorf("dumped declaration: %v", err)
			}
			r.Decls = append(r.Decls, l...)
		}
	}
	return r, nil
}

// fromDOM converts a document. withDTD: also convert the declarations.
func fromDOM(doc *helium.Document, withDTD bool) (*Doc, error) {
	r := &Doc{Decl: &XMLDecl{Version: doc.Version()}}
	if e := doc.Encoding(); e != "utf8" {
		r.Decl.Encoding = e
	}
	switch doc.Standalone() {
	case helium.StandaloneExplicitYes:
		r.Decl.Standalone = "yes"
	case helium.StandaloneExplicitNo:
		r.Decl.Standalone = "no"
	}
	var prev helium.Node
	var root helium.Node
	for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
		if c.Parent() != helium.Node(doc) {
			return nil, fmt.Errorf("top-level %s does not name the document as its parent", c.Type())
		}
		if pv := c.PrevSibling(); prev == nil && pv != nil || prev != nil && !sameNode(pv, prev) {
			return nil, fmt.Errorf("previous sibling of top-level %s is wrong", c.Type())
		}
		prev = c
		if c.OwnerDocument() != doc {
			return nil, fmt.Errorf("top-level %s has another owner document", c.Type())
		}
		switch c.Type() {
		case helium.DTDNode:
			d, ok := c.(*helium.DTD)
			if !ok {
				return nil, fmt.Errorf("DTD node is a %T", c)
			}
			if r.DTD != nil || root != nil {
				return nil, fmt.Errorf("misplaced or second DOCTYPE")
			}
			if doc.IntSubset() != d {
				return nil, fmt.Errorf("IntSubset() is not the DTD node")
			}
			if withDTD {
				x, err := domDTD(d)
				if err != nil {
					return nil, err
				}
				r.DTD = x
			} else {
				r.DTD = &DTD{Name: d.Name()}
			}
			continue
		case helium.ElementNode:
			if root != nil {
				return nil, fmt.Errorf("two root elements")
			}
			root = c
		}
		n, err := domNode(c, 0)
		if err != nil {
			return nil, err
		}
		switch {
		case n.K == KElem:
			r.Root = n
		case n.K != KComm && n.K != KPI:
			return nil, fmt.Errorf("%q at the top level", n.K)
		case r.Root != nil:
			r.After = append(r.After, n)
		case r.DTD != nil:
			r.Mid = append(r.Mid, n)
		default:
			r.Before = append(r.Before, n)
		}
	}
	if last := doc.LastChild(); prev == nil && last != nil || prev != nil && !sameNode(last, prev) {
		return nil, fmt.Errorf("last child of the document is wrong")
	}
	if r.Root == nil {
		return nil, fmt.Errorf("no root element")
	}
	return r, nil
}

// Mid is only distinct from Before when there is a DOCTYPE
