package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P21: element content models keep their meaning.

// ---- membership, independent of the automata in cm.go ----

// posSet is a set of positions in a sequence of up to 127 children
type posSet [2]uint64

func (s posSet) has(i int) bool         { return s[i>>6]>>(i&63)&1 != 0 }
func (s *posSet) add(i int)             { s[i>>6] |= 1 << (i & 63) }
func (s posSet) union(o posSet) posSet  { return posSet{s[0] | o[0], s[1] | o[1]} }
func (s posSet) minus(o posSet) posSet  { return posSet{s[0] &^ o[0], s[1] &^ o[1]} }
func (s posSet) shift() posSet          { return posSet{s[0] << 1, s[1]<<1 | s[0]>>63} }
func (s posSet) masked(o posSet) posSet { return posSet{s[0] & o[0], s[1] & o[1]} }

// reach computes with the positions of each name; seen keeps what is known
// already, for models with repetition within repetition.
type reach struct {
	where map[string]posSet
	seen  map[stepKey]posSet
}

type stepKey struct {
	c  *CM
	at posSet
}

// step gives the positions the model can get to, from those in at
func (r *reach) step(c *CM, at posSet) posSet {
	if at == (posSet{}) {
		return at
	}
	key := stepKey{c, at}
	if out, ok := r.seen[key]; ok {
		return out
	}
	var out posSet
	switch c.Occ {
	case "", "?":
		out = r.once(c, at)
	default:
		for todo := at; todo != (posSet{}); {
			todo = r.once(c, todo).minus(out)
			out = out.union(todo)
		}
	}
	if c.Occ == "?" || c.Occ == "*" {
		out = out.union(at)
	}
	if c.Kids != nil {
		r.seen[key] = out
	}
	return out
}

func (r *reach) once(c *CM, at posSet) posSet {
	var out posSet
	switch c.Op {
	case "name":
		return at.masked(r.where[c.Name]).shift()
	case "pcdata":
		return at.masked(r.where["#PCDATA"]).shift()
	case "seq":
		out = at
		for _, k := range c.Kids {
			out = r.step(k, out)
		}
	case "or":
		for _, k := range c.Kids {
			out = out.union(r.step(k, at))
		}
	}
	return out
}

func (c *CM) accepts(w []string) bool {
	r := reach{where: map[string]posSet{}, seen: map[stepKey]posSet{}}
	for i, n := range w {
		s := r.where[n]
		s.add(i)
		r.where[n] = s
	}
	return r.step(c, posSet{1}).has(len(w))
}

// derive draws a sequence the model accepts
func (c *CM) derive(next func(n int) int, w []string) []string {
	fuel := 5000
	return c.deriveFrom(next, w, &fuel)
}

func (c *CM) deriveFrom(next func(n int) int, w []string, fuel *int) []string {
	n := 1
	switch c.Occ {
	case "?":
		n = next(2)
	case "*":
		n = next(3)
	case "+":
		n = 1 + next(2)
	}
	for ; n > 0 && len(w) < 200 && *fuel > 0; n-- {
		*fuel--
		switch c.Op {
		case "name":
			w = append(w, c.Name)
		case "pcdata":
			w = append(w, "#PCDATA")
		case "seq":
			for _, k := range c.Kids {
				w = k.deriveFrom(next, w, fuel)
			}
		case "or":
			w = c.Kids[next(len(c.Kids))].deriveFrom(next, w, fuel)
		}
	}
	return w
}

func (c *CM) names(m map[string]bool) {
	if c.Op == "name" {
		m[c.Name] = true
	}
	for _, k := range c.Kids {
		k.names(m)
	}
}

func (c *CM) depth() int {
	d := 0
	for _, k := range c.Kids {
		if x := k.depth(); x > d {
			d = x
		}
	}
	return d + 1
}

// sameDeclared compares two element declarations by what they accept
func sameDeclared(want, got *Decl) error {
	if got.K != "elem" || got.Name != want.Name || got.Type != want.Type || (got.Model == nil) != (want.Model == nil) {
		return errorf("the declaration is %s %s %s\nwant %s %s %s", got.Name, got.Type, got.Model, want.Name, want.Type, want.Model)
	}
	if want.Model == nil {
		return nil
	}
	seed := uint64(want.Model.size())*7 + 3
	next := func(n int) int {
		seed = seed*6364136223846793005 + 1442695040888963407
		return int(seed>>33) % n
	}
	ns := map[string]bool{"zz": true}
	want.Model.names(ns)
	alpha := sortedKeys(ns)
	if want.Type == "MIXED" {
		alpha = append(alpha, "#PCDATA")
	}
	try := func(w []string) error {
		a, b := want.Model.accepts(w), got.Model.accepts(w)
		if a != b {
			return errorf("children %q: the source says %v, what is recorded says %v\nsource   %s\nrecorded %s", w, a, b, want.Model, got.Model)
		}
		return nil
	}
	for i := 0; i < 24; i++ {
		w := want.Model.derive(next, nil)
		if i%2 == 1 {
			w = got.Model.derive(next, nil)
		}
		if len(w) > 120 {
			w = w[:120]
		}
		if err := try(w); err != nil {
			return err
		}
		// and sequences close to it
		v := append([]string(nil), w...)
		switch p := next(len(v) + 1); {
		case p == len(v) || next(3) == 0:
			v = append(v, alpha[next(len(alpha))])
		case next(2) == 0:
			v = append(v[:p], v[p+1:]...)
		default:
			v[p] = alpha[next(len(alpha))]
		}
		if err := try(v); err != nil {
			return err
		}
	}
	if want.Model.leaves() <= 40 && got.Model.leaves() <= 40 {
		if a, b := want.Model.lang(), got.Model.lang(); a != b {
			return errorf("the models accept different children\nsource   %s\nrecorded %s", want.Model, got.Model)
		}
	}
	return nil
}

// ---- generated models ----

type cmCase struct {
	DTD *DTD
	Src []byte
}

// genModel draws a model over few names, to some depth, with about n parts
func genModel(t *rapid.T, names []string, depth, n int) *CM {
	occ := pick(t, []string{"", "", "?", "*", "+"})
	if depth == 0 || n <= 1 {
		return &CM{Op: "name", Name: pick(t, names), Occ: occ}
	}
	m := &CM{Op: pick(t, []string{"seq", "or"}), Occ: occ}
	k := ri(t, 1, 4)
	if k > n {
		k = n
	}
	if k == 1 {
		m.Op = "seq"
	}
	left := n
	for i := 0; i < k; i++ {
		x := left
		if i < k-1 {
			x = ri(t, 1, left-(k-1-i))
		}
		left -= x
		m.Kids = append(m.Kids, genModel(t, names, depth-1, x))
	}
	return m
}

func asGroup(m *CM) *CM {
	if m.Op == "name" {
		return &CM{Op: "seq", Kids: []*CM{m}}
	}
	return m
}

func genModelDecl(t *rapid.T, name string, names []string) *Decl {
	d := &Decl{K: "elem", Name: name, Type: "CHILDREN"}
	switch ri(t, 0, 9) {
	case 0:
		d.Type = pick(t, []string{"EMPTY", "ANY"})
		return d
	case 1, 2:
		d.Type = "MIXED"
		d.Model = &CM{Op: "or", Kids: []*CM{{Op: "pcdata"}}}
		n := ri(t, 0, 5)
		if chance(t, 1, 25) {
			n = ri(t, 20, 300)
		}
		for i := 0; i < n; i++ {
			x := pick(t, names)
			if n > 5 {
				x = fmt.Sprintf("n%d", i)
			}
			d.Model.Kids = append(d.Model.Kids, &CM{Op: "name", Name: x})
		}
		if n > 0 || rb(t) {
			d.Model.Occ = "*"
		}
	case 3: // deep
		m := genModel(t, names, 1, 2)
		n := ri(t, 1, 25)
		if chance(t, 1, 15) {
			n = ri(t, 26, 120)
		}
		for ; n > 0; n-- {
			k := &CM{Op: "name", Name: pick(t, names), Occ: pick(t, []string{"", "?", "*", "+"})}
			x := &CM{Op: pick(t, []string{"seq", "or"}), Occ: pick(t, []string{"", "", "", "?", "*", "+"})}
			switch ri(t, 0, 2) {
			case 0:
				x.Kids = []*CM{m, k}
			case 1:
				x.Kids = []*CM{k, m}
			default:
				x.Op = "seq"
				x.Kids = []*CM{m}
			}
			m = x
		}
		d.Model = asGroup(m)
	case 4: // wide
		m := &CM{Op: pick(t, []string{"seq", "or"}), Occ: pick(t, []string{"", "?", "*", "+"})}
		n := ri(t, 2, 30)
		if chance(t, 1, 10) {
			n = ri(t, 30, 400)
		}
		for ; n > 0; n-- {
			if chance(t, 1, 6) {
				m.Kids = append(m.Kids, genModel(t, names, 2, 3))
			} else {
				m.Kids = append(m.Kids, genModel(t, names, 0, 1))
			}
		}
		d.Model = m
	default:
		d.Model = asGroup(genModel(t, names, ri(t, 1, 6), ri(t, 1, 16)))
	}
	return d
}

func genCMCase(t *rapid.T) cmCase {
	d := &DTD{Name: "r"}
	names := []string{"a", "b", "c"}
	if rb(t) {
		names = append(names, "p:a", "a.b-c", "EMPTY", "ANY", "PCDATA")
	}
	if chance(t, 1, 4) {
		names = append(names, genDeclName(t), genDeclName(t))
	}
	for i := ri(t, 1, 4); i > 0; i-- {
		d.Decls = append(d.Decls, genModelDecl(t, fmt.Sprintf("%s%d", pick(t, []string{"x", "p:x", "EMPTY", "é"}), i), names))
	}
	m := &Doc{DTD: d, Root: &N{K: KElem, Name: "r"}}
	return cmCase{d, spell(t, m)}
}

// checkModels compares everything that is said about the element
// declarations of a document with want
func checkModels(src []byte, want []*Decl) error {
	bad := func(where string, err error) error {
		return errorf("%s: %v\n%s", where, err, show(src))
	}
	doc, err := helium.Parse(src)
	if err != nil {
		return bad("rejected", err)
	}
	var elems []*Decl
	for _, d := range bound(want) {
		if d.K == "elem" {
			elems = append(elems, d)
		}
	}
	dtd := doc.IntSubset()
	if dtd == nil {
		return bad("the tree", errorf("no internal subset"))
	}
	texts := map[string]string{}
	for _, d := range elems {
		x, ok := dtd.GetElementDesc(d.Name)
		if !ok {
			return bad("the tree", errorf("%q is not declared", d.Name))
		}
		s, err := dumpNode(x)
		if err != nil {
			return bad("the declaration of "+d.Name, err)
		}
		l, err := parseDecl(s)
		if err != nil || len(l) != 1 {
			return bad("the declaration of "+d.Name, errorf("%q: %v", s, err))
		}
		if err := sameDeclared(d, l[0]); err != nil {
			return bad("the declaration of "+d.Name, err)
		}
		texts[d.Name] = s
		mixed, err := doc.IsMixedElement(d.Name)
		if err != nil || mixed != (d.Type != "CHILDREN") {
			return bad("IsMixedElement "+d.Name, errorf("%v, %v", mixed, err))
		}
	}
	// what is serialised, read by the reference parser
	s, err := doc.XMLString()
	if err != nil {
		return bad("serialising", err)
	}
	r := refParse([]byte(s))
	if r.V == vBad {
		return bad("the output", errorf("%s: %s", r.Msg, show([]byte(s))))
	}
	if r.V == vOK {
		i := 0
		if r.Doc.DTD != nil {
			for _, d := range r.Doc.DTD.Decls {
				if d.K != "elem" {
					continue
				}
				if i >= len(elems) {
					return bad("the output", errorf("more declarations than in the source: %s", show([]byte(s))))
				}
				if err := sameDeclared(elems[i], d); err != nil {
					return bad("the output", err)
				}
				i++
			}
		}
		if i < len(elems) {
			return bad("the output", errorf("fewer declarations than in the source: %s", show([]byte(s))))
		}
	}
	// … and by the parser: now nothing changes any more
	again, err := helium.Parse([]byte(s))
	if err != nil {
		return bad("the output is rejected", errorf("%v: %s", err, show([]byte(s))))
	}
	for _, d := range elems {
		x, ok := again.IntSubset().GetElementDesc(d.Name)
		if !ok {
			return bad("read back", errorf("%q is not declared", d.Name))
		}
		s, err := dumpNode(x)
		if err != nil || s != texts[d.Name] {
			return bad("read back", errorf("%q has become %q (%v)", texts[d.Name], s, err))
		}
	}
	// the events
	rec := newRecorder(len(src)%2 == 0)
	p := helium.NewParser()
	p.SetSAXHandler(rec)
	if _, err := p.Parse(src); err != nil && rec.bad == nil {
		return bad("with another handler", err)
	}
	if rec.bad != nil {
		return bad("the events", rec.bad)
	}
	var evs []*Decl
	for _, e := range rec.evs {
		if e.K == "decl" && e.Decl.K == "elem" {
			evs = append(evs, e.Decl)
		}
	}
	var all []*Decl
	for _, d := range want {
		if d.K == "elem" {
			all = append(all, d)
		}
	}
	if len(evs) != len(all) {
		return bad("the events", errorf("%d element declarations, want %d", len(evs), len(all)))
	}
	for i, d := range all {
		if err := sameDeclared(d, evs[i]); err != nil {
			return bad("the events", err)
		}
	}
	return nil
}

// ---- edited models ----

type cmText struct {
	Src  []byte
	Text string
}

func (c *cmText) input() []byte                  { return c.Src }
func (c *cmText) withInput(b []byte) interface{} { return &cmText{b, "?"} }

func cmDoc(model string) []byte { return []byte("<!DOCTYPE r [<!ELEMENT r " + model + ">]><r/>") }

var cmTokens = []string{"(", ")", "(", ")", "|", ",", "|", ",", "*", "+", "?", "a", "b", "#PCDATA", " ", "EMPTY", "ANY", "()", "(#PCDATA", ")*", "(a|b)", "(a,b)", "\n", "p:a", "1", "#", "'", "&", "%", "-", "<!-- -->", "--", ";", "é", "#pcdata", "a b", "**", "."}

func tokensOf(m *CM, s []string, top bool) []string {
	switch m.Op {
	case "name":
		return append(s, m.Name+m.Occ)
	case "pcdata":
		return append(s, "#PCDATA")
	}
	s = append(s, "(")
	for i, k := range m.Kids {
		if i > 0 {
			if m.Op == "or" {
				s = append(s, "|")
			} else {
				s = append(s, ",")
			}
		}
		s = tokensOf(k, s, false)
	}
	return append(s, ")"+m.Occ)
}

func genCMText(t *rapid.T) cmText {
	d := genModelDecl(t, "r", []string{"a", "b", "c"})
	var toks []string
	if d.Model == nil {
		toks = []string{d.Type}
	} else if d.Model.size() > 60 {
		toks = []string{"(", "a", "|", "b", ")"}
	} else {
		toks = tokensOf(d.Model, nil, true)
	}
	for n := ri(t, 1, 3); n > 0; n-- {
		i := uni(t, len(toks)+1)
		switch ri(t, 0, 5) {
		case 0, 1:
			toks = append(toks[:i:i], append([]string{pick(t, cmTokens)}, toks[i:]...)...)
		case 2:
			if i < len(toks) {
				toks = append(toks[:i:i], toks[i+1:]...)
			}
		case 3:
			if i < len(toks) {
				toks = append(toks[:i:i], append([]string{pick(t, cmTokens)}, toks[i+1:]...)...)
			}
		case 4:
			if i+1 < len(toks) {
				toks[i], toks[i+1] = toks[i+1], toks[i]
			}
		default:
			if i < len(toks) && len(toks[i]) > 1 {
				toks[i] = toks[i][:len(toks[i])-1] + " " + toks[i][len(toks[i])-1:]
			}
		}
	}
	sep := ""
	if chance(t, 1, 3) {
		sep = pick(t, []string{" ", "\n", "\t", "  "})
	}
	s := strings.Join(toks, sep)
	return cmText{cmDoc(s), s}
}

func checkCMText(src []byte, what string) (verdict, error) {
	r := refParse(src)
	switch r.V {
	case vBad:
		return r.V, mustReject(src, "content model "+q(what)+": "+r.Msg)
	case vOK:
		var l []*Decl
		if r.Doc.DTD != nil {
			l = r.Doc.DTD.Decls
		}
		return r.V, checkModels(src, l)
	}
	return r.V, nil
}

// all short sequences of these tokens are tried, in blocks
var (
	exTokens = []string{"(", ")", ",", "|", "a", "*", "#PCDATA", " ", "?"}
	exMax    = 6
	exBlock  = 81
)

func exCount() int {
	n, p := 0, 1
	for i := 0; i <= exMax; i++ {
		n += p
		p *= len(exTokens)
	}
	return n
}

func exText(i int) string {
	l, p := 0, 1
	for i >= p {
		i -= p
		p *= len(exTokens)
		l++
	}
	s := ""
	for ; l > 0; l-- {
		s += exTokens[i%len(exTokens)]
		i /= len(exTokens)
	}
	return s
}

type exCase struct {
	Block int
	Outer bool // within an outer group
}

func init() {
	prop("P21", "a model of at least 4 parts or 3 levels (models); every edited and every enumerated text that is not a model, or one of at least 3 parts")

	reg("P21", "models", 12000, 700000, genCMCase, func(c cmCase) Out {
		out := Out{Sample: string(c.Src), Labels: []string{}}
		for _, d := range c.DTD.Decls {
			l := d.Type
			if d.Model != nil {
				n := d.Model.size()
				if n >= 4 || d.Model.depth() >= 3 {
					out.NonTrivial = true
				}
				switch {
				case n > 200:
					l += " > 200 parts"
				case n > 20:
					l += " > 20 parts"
				}
			}
			out.Labels = append(out.Labels, l)
		}
		out.Err = checkModels(c.Src, c.DTD.Decls)
		return out
	})

	reg("P21", "edited", 60000, 3000000, genCMText, func(c cmText) Out {
		v, err := checkCMText(c.Src, c.Text)
		return Out{Err: err, NonTrivial: v == vBad || v == vOK && len(c.Text) > 8, Labels: []string{v.String()}, Sample: string(c.Src)}
	})

	blocks := (exCount() + exBlock - 1) / exBlock
	reg("P21", "enumerated", 1500, 60000, func(t *rapid.T) exCase {
		return exCase{uni(t, blocks), rb(t)}
	}, func(c exCase) Out {
		out := Out{Labels: []string{"blocks of 81"}, NonTrivial: true}
		for i := c.Block * exBlock; i < (c.Block+1)*exBlock && i < exCount(); i++ {
			s := exText(i)
			if c.Outer {
				s = "(" + s + ")"
			}
			out.Sample = s
			if _, err := checkCMText(cmDoc(s), s); err != nil {
				out.Err = err
				return out
			}
		}
		return out
	})

	// models made through the tree
	type made struct{ Name, Sub string }
	reg("P21", "made", 2000, 50000, func(t *rapid.T) made {
		return made{genDeclName(t), genDeclName(t)}
	}, func(c made) Out {
		out := Out{Sample: c.Name + " " + c.Sub, Labels: []string{"made"}, NonTrivial: true}
		doc := helium.NewDocument("1.0", "", helium.StandaloneImplicitNo)
		dtd, err := doc.CreateInternalSubset("r", "", "")
		if err != nil {
			return failf("%v", err)
		}
		pc, err := doc.CreateElementContent("", helium.ElementContentPCDATA)
		if err != nil {
			return failf("%v", err)
		}
		el, err := doc.CreateElementContent(c.Sub, helium.ElementContentElement)
		if err != nil {
			return failf("%v", err)
		}
		for i, x := range []struct {
			typ  helium.ElementTypeVal
			c    *helium.ElementContent
			want *Decl
		}{
			{helium.EmptyElementType, nil, &Decl{Type: "EMPTY"}},
			{helium.AnyElementType, nil, &Decl{Type: "ANY"}},
			{helium.MixedElementType, pc, &Decl{Type: "MIXED", Model: &CM{Op: "pcdata"}}},
			{helium.ElementElementType, el, &Decl{Type: "CHILDREN", Model: &CM{Op: "name", Name: c.Sub}}},
		} {
			x.want.K, x.want.Name = "elem", fmt.Sprintf("%s%d", c.Name, i)
			n, err := dtd.AddElementDecl(x.want.Name, x.typ, x.c)
			if err != nil {
				return failf("%v", err)
			}
			s, err := dumpNode(n)
			if err != nil {
				return failf("%v", err)
			}
			l, err := parseDecl(s)
			if err != nil {
				return failf("%v", err)
			}
			if out.Err = sameDeclared(x.want, l[0]); out.Err != nil {
				return out
			}
		}
		for _, typ := range []helium.ElementTypeVal{helium.EmptyElementType, helium.AnyElementType} {
			if _, err := dtd.AddElementDecl(c.Name+"z", typ, el); err == nil {
				return failf("a declaration of type %d takes a content model", typ)
			}
		}
		for _, typ := range []helium.ElementTypeVal{helium.MixedElementType, helium.ElementElementType} {
			if _, err := dtd.AddElementDecl(c.Name+"z", typ, nil); err == nil {
				return failf("a declaration of type %d takes no content model", typ)
			}
		}
		return out
	})
}
