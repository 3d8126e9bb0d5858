package props

import (
	"bytes"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P09: declarations in the internal subset are represented faithfully.

// genCrowdedDTD draws a subset where few names are declared again and again,
// also with the same name in different roles.
func genCrowdedDTD(t *rapid.T) *DTD {
	names := []string{"a", "b", "p:a", "q:a", "a.b"}
	if rb(t) {
		names = append(names, genDeclName(t))
	}
	names = lookalikes(t, names)
	atts := lookalikes(t, []string{"dclx", "dcly", "p:dclx", "q:dclx"})
	names, atts = lookalikePairs(t, names, atts)
	ents := lookalikes(t, []string{"a", "e1", "e2", "dclx", "lt0"})
	d := &DTD{Name: pick(t, names)}
	var known []string
	seen := map[string]bool{}
	for n := ri(t, 1, 14); n > 0; n-- {
		switch ri(t, 0, 5) {
		case 0, 1:
			x := genElemDecl(t)
			x.Name = pick(t, names)
			d.Decls = append(d.Decls, x)
		case 2, 3:
			d.Decls = append(d.Decls, genAttDecl(t, pick(t, names), pick(t, atts)))
		case 4:
			name := pick(t, ents)
			if seen[name] {
				// what does not bind may be anything
				d.Decls = append(d.Decls, &Decl{K: "ent", Name: name, Text: genEntText(t, known)})
				continue
			}
			d.Decls = append(d.Decls, &Decl{K: "ent", Name: name, Text: genEntText(t, known)})
			seen[name] = true
			known = append(known, name)
		default:
			d.Decls = append(d.Decls, &Decl{K: "pent", Name: pick(t, ents), Text: genEntText(t, nil)})
		}
	}
	return d
}

// checkLookups asks for everything that is declared, and for what is not
func checkLookups(doc *helium.Document, d *DTD) error {
	dtd := doc.IntSubset()
	if dtd == nil {
		return errorf("there is no internal subset")
	}
	elems, atts, ents, pents := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	anyElem := map[string]bool{} // elements that attributes are declared for
	names, anames := map[string]bool{"zz": true}, map[string]bool{"zz": true}
	decl := func(n helium.Node, c *Decl) error {
		s, err := dumpNode(n)
		if err != nil {
			return errorf("dumping a declaration: %v", err)
		}
		l, err := parseDecl(s)
		if err != nil {
			return errorf("dumped declaration %q: %v", s, err)
		}
		if len(l) != 1 || l[0].K != "raw" && l[0].String() != c.String() {
			return errorf("the declaration found is %s\nwant %s", show([]byte(s)), c)
		}
		if n.Parent() != helium.Node(dtd) || n.OwnerDocument() != doc {
			return errorf("the declaration %s does not belong to the subset", show([]byte(s)))
		}
		return nil
	}
	for _, c := range bound(d.Decls) {
		names[c.Name] = true
		switch c.K {
		case "elem":
			elems[c.Name] = true
			x, ok := dtd.LookupElement(local(c.Name), prefixOf(c.Name))
			if !ok {
				return errorf("element %q is not found", c.Name)
			}
			if err := decl(x, c); err != nil {
				return err
			}
			if y, ok := dtd.GetElementDesc(c.Name); !ok || y != x {
				return errorf("GetElementDesc(%q) finds something else", c.Name)
			}
			mixed, err := doc.IsMixedElement(c.Name)
			if err != nil || mixed != (c.Type != "CHILDREN") {
				return errorf("IsMixedElement(%q) is %v, %v, but it is declared as %s", c.Name, mixed, err, c)
			}
		case "att":
			anyElem[c.Name] = true
			anames[c.Att] = true
			atts[c.Name+" "+c.Att] = true
			x, ok := dtd.LookupAttribute(local(c.Att), prefixOf(c.Att), c.Name)
			if !ok {
				return errorf("attribute %q of %q is not found", c.Att, c.Name)
			}
			if err := decl(x, c); err != nil {
				return err
			}
		case "ent", "pent":
			m, typ := ents, helium.InternalGeneralEntity
			x, ok := dtd.LookupEntity(c.Name)
			y, ok2 := doc.GetEntity(c.Name)
			if c.K == "pent" {
				m, typ = pents, helium.InternalParameterEntity
				x, ok = dtd.LookupParameterEntity(c.Name)
				y, ok2 = doc.GetParameterEntity(c.Name)
			}
			m[c.Name] = true
			if !ok || !ok2 || x != y {
				return errorf("entity %q is not found: %v %v", c.Name, ok, ok2)
			}
			if x.Name() != c.Name || helium.EntityType(x.EntityType()) != typ || string(x.Content()) != c.Text {
				return errorf("entity %q is %q of type %d with the text %q, want %q", c.Name, x.Name(), x.EntityType(), x.Content(), c.Text)
			}
			if err := decl(x, c); err != nil {
				return err
			}
		}
	}
	// what is not there; not every pair of names is tried if there are many
	an := sortedKeys(anames)
	step := 1 + len(names)*len(an)/40000
	for i, n := range sortedKeys(names) {
		for _, p := range []string{"", "p", "q", "zz"} {
			full := qn(p, local(n))
			if !elems[full] && !anyElem[full] {
				if _, ok := dtd.LookupElement(local(n), p); ok {
					return errorf("element %q is found but not declared", full)
				}
				if _, ok := dtd.GetElementDesc(full); ok {
					return errorf("GetElementDesc finds %q, which is not declared", full)
				}
			}
			for j := i % step; j < len(an); j += step {
				a := an[j]
				for _, ap := range []string{"", "p", "q"} {
					fa := qn(ap, local(a))
					_, ok := dtd.LookupAttribute(local(a), ap, full)
					if ok != atts[full+" "+fa] {
						return errorf("attribute %q of %q: found %v, declared %v", fa, full, ok, !ok)
					}
				}
			}
		}
		if !elems[n] {
			if _, err := doc.IsMixedElement(n); err == nil {
				return errorf("IsMixedElement(%q) gives an answer", n)
			}
		}
		if _, ok := dtd.LookupEntity(n); ok != ents[n] {
			return errorf("entity %q: found %v", n, ok)
		}
		if _, ok := doc.GetEntity(n); ok != ents[n] && predef[n] == "" {
			return errorf("entity %q of the document: found %v", n, ok)
		}
		if _, ok := dtd.LookupParameterEntity(n); ok != pents[n] {
			return errorf("parameter entity %q: found %v", n, ok)
		}
		if _, ok := doc.GetParameterEntity(n); ok != pents[n] {
			return errorf("parameter entity %q of the document: found %v", n, ok)
		}
	}
	for n, v := range predef {
		if e, ok := doc.GetEntity(n); !ok || string(e.Content()) != v && !ents[n] {
			return errorf("predefined entity %q is missing or wrong", n)
		}
	}
	return nil
}

func checkSubset(c docCase) error {
	doc, err := helium.Parse(c.Src)
	if err != nil {
		return errorf("well-formed document rejected: %v\ndocument: %s", err, show(c.Src))
	}
	if err := checkTree(c.Src, c.Doc, canonOpt{}); err != nil {
		return err
	}
	if err := checkLookups(doc, c.Doc.DTD); err != nil {
		return errorf("%v\ndocument: %s", err, show(c.Src))
	}
	for _, fwd := range []bool{true, false} {
		if err := checkStream(c.Src, c.Doc, fwd); err != nil {
			return err
		}
	}
	// written back, the declarations are the same, and in the same order
	s, err := doc.XMLString()
	if err != nil {
		return errorf("serialising: %v\ndocument: %s", err, show(c.Src))
	}
	if err := checkTree([]byte(s), c.Doc, canonOpt{noDecl: true}); err != nil {
		return errorf("after serialising: %v\nfirst document: %s", err, show(c.Src))
	}
	if r := refParse([]byte(s)); r.V == vBad {
		return errorf("the serialised document is not well-formed: %s: %s", r.Msg, show([]byte(s)))
	} else if r.V == vOK && r.Doc.DTD != nil {
		a := (&Doc{DTD: c.Doc.DTD}).canon(canonOpt{noDecl: true})
		b := (&Doc{DTD: r.Doc.DTD}).canon(canonOpt{noDecl: true})
		if a != b {
			return errorf("the serialised declarations say something else: %s\ndocument: %s\nserialised: %s", diffLines(a, b), show(c.Src), show([]byte(s)))
		}
	}
	doc2, err := helium.Parse([]byte(s))
	if err != nil {
		return errorf("the serialised document is rejected: %v", err)
	}
	if err := checkLookups(doc2, c.Doc.DTD); err != nil {
		return errorf("after serialising: %v\ndocument: %s", err, show([]byte(s)))
	}
	return nil
}

func dtdLabels(d *DTD) (l []string, n int) {
	if d == nil {
		return nil, 0
	}
	b := bound(d.Decls)
	if len(b) != len(d.Decls) {
		l = append(l, "declared again")
	}
	kinds := map[string]bool{}
	for _, c := range d.Decls {
		switch c.K {
		case "att":
			kinds["att "+c.AttType] = true
		case "elem":
			kinds["elem "+c.Type] = true
		default:
			kinds[c.K] = true
		}
	}
	return append(l, sortedKeys(kinds)...), len(b)
}

// ---- declarations made through the calls of the DTD ----

type apiDecl struct {
	Op   int // 0 AddElementDecl 1 AddEntity 2 RemoveElement
	Name string
	Typ  int
	Text string
}

func checkAPIDecls(ops []apiDecl) Out {
	doc := helium.NewDocument("1.0", "", helium.StandaloneNoXMLDecl)
	dtd, err := doc.CreateInternalSubset("x", "", "")
	if err != nil {
		return failf("CreateInternalSubset: %v", err)
	}
	if d2, err := doc.InternalSubset(); err != nil || d2 != dtd {
		return failf("InternalSubset() is not the subset created: %v", err)
	}
	if _, err := doc.CreateInternalSubset("y", "", ""); err == nil {
		return failf("a second internal subset is accepted")
	}
	elems := map[string]*helium.ElementDecl{}
	ents := map[string]*helium.Entity{}
	var order []helium.Node
	dups := 0
	for i, o := range ops {
		switch o.Op {
		case 0:
			var c *helium.ElementContent
			typ := helium.ElementTypeVal(o.Typ)
			if typ == helium.MixedElementType || typ == helium.ElementElementType {
				k, name := helium.ElementContentPCDATA, ""
				if typ == helium.ElementElementType {
					k, name = helium.ElementContentElement, "k"
				}
				if c, err = doc.CreateElementContent(name, k); err != nil {
					return failf("CreateElementContent: %v", err)
				}
				if bad, err := dtd.AddElementDecl(o.Name, typ, nil); err == nil || bad != nil {
					return failf("step %d: AddElementDecl accepts a missing content model", i)
				}
			} else {
				c0, _ := doc.CreateElementContent("", helium.ElementContentPCDATA)
				if bad, err := dtd.AddElementDecl(o.Name, typ, c0); err == nil || bad != nil {
					return failf("step %d: AddElementDecl accepts a content model for type %d", i, typ)
				}
			}
			x, err := dtd.AddElementDecl(o.Name, typ, c)
			if old := elems[o.Name]; old != nil {
				dups++
				if err == nil {
					return failf("step %d: declaring element %q again is accepted", i, o.Name)
				}
				break
			}
			if err != nil || x == nil {
				return failf("step %d: AddElementDecl(%q): %v", i, o.Name, err)
			}
			elems[o.Name] = x
			order = append(order, x)
		case 1:
			typ := helium.InternalGeneralEntity
			k := "g " + o.Name
			if o.Typ%2 == 0 {
				typ, k = helium.InternalParameterEntity, "p "+o.Name
			}
			x, err := dtd.AddEntity(o.Name, typ, "", "", o.Text)
			if ents[k] != nil {
				dups++
				if err == nil {
					return failf("step %d: declaring entity %q again is accepted", i, o.Name)
				}
				break
			}
			if err != nil || x == nil || string(x.Content()) != o.Text || x.Name() != o.Name || x.EntityType() != int(typ) {
				return failf("step %d: AddEntity(%q): %v", i, o.Name, err)
			}
			ents[k] = x
			order = append(order, x)
		default:
			if x, err := dtd.AddEntity("amp", helium.InternalPredefinedEntity, "", "", "x"); err == nil || x != nil {
				return failf("step %d: a predefined entity can be registered", i)
			}
		}
		// everything declared so far is there
		for n, x := range elems {
			y, ok := dtd.LookupElement(local(n), prefixOf(n))
			if !ok || y != x {
				return failf("step %d: element %q is not found any more", i, n)
			}
		}
		for k, x := range ents {
			y, ok := dtd.LookupEntity(k[2:])
			if k[0] == 'p' {
				y, ok = dtd.LookupParameterEntity(k[2:])
			}
			if !ok || y != x {
				return failf("step %d: entity %q is not found any more", i, k)
			}
		}
		j := 0
		for n := dtd.FirstChild(); n != nil; n = n.NextSibling() {
			if j >= len(order) || n != order[j] {
				return failf("step %d: declaration %d of the subset is not the one made", i, j)
			}
			j++
		}
		if j != len(order) {
			return failf("step %d: the subset has %d declarations instead of %d", i, j, len(order))
		}
	}
	return Out{NonTrivial: dups > 0 && len(order) >= 3}
}

func init() {
	prop("P09", "at least 2 binding declarations (subset, crowded), a declaration in an accepted document (mutated), a refused repetition (calls)")

	subset := func(c docCase) Out {
		l, n := dtdLabels(c.Doc.DTD)
		return Out{Err: checkSubset(c), NonTrivial: n >= 2, Labels: l, Sample: string(c.Src)}
	}
	reg("P09", "subset", 15000, 700000,
		func(t *rapid.T) docCase { return genDocCase(t, GenOpt{MaxElems: 3, DTD: true, DTDSize: 16}) }, subset)
	reg("P09", "crowded", 15000, 700000,
		func(t *rapid.T) docCase {
			d := &Doc{DTD: genCrowdedDTD(t), Root: &N{K: KElem, Name: "root"}}
			if rb(t) {
				d.Root.Kids = []*N{{K: KText, Text: "x"}}
			}
			return docCase{spell(t, d), d}
		}, subset)
	reg("P09", "mutated", 30000, 900000,
		func(t *rapid.T) srcCase {
			d := &Doc{DTD: genDTD(t, GenOpt{DTD: true, DTDSize: 5}), Root: &N{K: KElem, Name: "r"}}
			if chance(t, 1, 3) {
				d.DTD = genCrowdedDTD(t)
			}
			src := spell(t, d)
			// only the subset is edited
			i, j := bytes.IndexByte(src, '['), bytes.LastIndexByte(src, ']')
			if i < 0 || j <= i {
				return srcCase{src}
			}
			m := mutate(t, src[i+1:j], ri(t, 1, 2))
			out := append(append([]byte(nil), src[:i+1]...), m...)
			return srcCase{append(out, src[j:]...)}
		},
		func(c srcCase) Out {
			r := refParse(c.Src)
			out := Out{Labels: []string{r.V.String()}, Sample: string(c.Src)}
			switch r.V {
			case vBad:
				out.Err = mustReject(c.Src, r.Msg)
			case vOK:
				if r.Doc.DTD == nil {
					return out
				}
				for _, d := range r.Doc.DTD.Decls {
					if strings.ContainsAny(d.Text, "<") && d.K == "ent" {
						return out // see P11
					}
				}
				_, n := dtdLabels(r.Doc.DTD)
				out.NonTrivial = n >= 1
				out.Err = checkSubset(docCase{c.Src, r.Doc})
			}
			return out
		})
	reg("P09", "calls", 4000, 100000,
		func(t *rapid.T) []apiDecl {
			var l []apiDecl
			names := lookalikes(t, []string{"a", "b", "p:a", "q:a", "c"})
			for n := ri(t, 1, 15); n > 0; n-- {
				o := apiDecl{Op: ri(t, 0, 1), Typ: ri(t, 1, 4), Name: pick(t, names), Text: genEntText(t, nil)}
				if chance(t, 1, 10) {
					o.Op = 2
				}
				l = append(l, o)
			}
			return l
		}, checkAPIDecls)
}
