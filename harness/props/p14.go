package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P14: the scope stacks are last-in first-out lists. The operations are
// checked directly in p14_stack.go and p14_wrap.go (which depend on the
// names of internal things and are left out when they do not build), here
// through documents that make the parser push and pop a lot.

// stackOp is an operation on a stack
type stackOp struct {
	Op  string // push, pop, pop1, peek, look, burst
	N   int
	Key string
}

func (o stackOp) String() string {
	switch o.Op {
	case "push", "look":
		return fmt.Sprintf("%s(%s)", o.Op, o.Key)
	case "pop1":
		return "pop()"
	}
	return fmt.Sprintf("%s(%d)", o.Op, o.N)
}

type stackCase struct {
	Kind string
	Ops  []stackOp
}

func genStackCase(kinds ...string) func(t *rapid.T) stackCase {
	return func(t *rapid.T) stackCase {
		c := stackCase{Kind: pick(t, kinds)}
		keys := []string{"a", "b", "c", "", "xml"}
		if chance(t, 1, 3) {
			for i := 0; i < 30; i++ {
				keys = append(keys, fmt.Sprintf("k%d", i))
			}
		}
		big, huge := chance(t, 1, 3), chance(t, 1, 30)
		for i := ri(t, 1, 40); i > 0; i-- {
			o := stackOp{}
			switch ri(t, 0, 11) {
			case 0, 1, 2, 3:
				o = stackOp{Op: "push", Key: pick(t, keys)}
			case 4:
				o = stackOp{Op: "pop1"}
			case 5:
				o = stackOp{Op: "pop", N: pick(t, []int{0, 1, 2, 3, 5, 19, 20, 21, 100})}
			case 6, 7:
				o = stackOp{Op: "peek", N: pick(t, []int{0, 1, 2, 3, 7, 20, 50, 1000, 9000})}
			case 8, 9:
				o = stackOp{Op: "look", Key: pick(t, keys)}
			default:
				max := 12
				if big {
					max = 90
				}
				if huge {
					max = 2500
				}
				o = stackOp{Op: "burst", N: ri(t, 1, max)}
				if rb(t) {
					o = stackOp{Op: "pop", N: ri(t, 0, max)}
				}
			}
			c.Ops = append(c.Ops, o)
		}
		return c
	}
}

// anyStack is what the kinds of stacks have in common. Values are numbers,
// for typed stacks the adapter keeps a table.
type anyStack interface {
	push(key string, v int) bool // whether it was pushed
	pop(n int)                   // n < 0: without a count
	peek(n int) []int
	size() int
	look(key string) (int, bool) // keyed stacks
	keyed() bool
	unique() bool // keyed, but may refuse keys it has
}

func checkStack(s anyStack, ops []stackOp) Out {
	type ent struct {
		key string
		v   int
	}
	var m []ent
	seq := 0
	out := Out{}
	pops, most, beyond := 0, 0, 0
	find := func(key string) (int, bool) {
		for i := len(m) - 1; i >= 0; i-- {
			if m[i].key == key {
				return m[i].v, true
			}
		}
		return 0, false
	}
	push := func(key string) error {
		seq++
		ok := s.push(key, seq)
		_, have := find(key)
		if !ok && !(s.unique() && have) {
			return errorf("push(%q) is refused", key)
		}
		if ok {
			m = append(m, ent{key, seq})
		}
		return nil
	}
	same := func(what string, n int) error {
		got := s.peek(n)
		want := m
		if n < len(m) {
			want = m[len(m)-n:]
		}
		if len(got) != len(want) {
			return errorf("%s: peek(%d) gives %d entries, want %d", what, n, len(got), len(want))
		}
		for i := range got {
			if got[i] != want[i].v {
				return errorf("%s: peek(%d)[%d] is the push number %d, want %d", what, n, i, got[i], want[i].v)
			}
		}
		return nil
	}
	for i, o := range ops {
		what := fmt.Sprintf("step %d, %v", i+1, o)
		var err error
		switch o.Op {
		case "push":
			err = push(o.Key)
		case "burst":
			for k := 0; k < o.N && err == nil; k++ {
				err = push(fmt.Sprintf("b%d", (seq+1)%37))
			}
		case "pop1", "pop":
			n := o.N
			if o.Op == "pop1" {
				n = 1
				s.pop(-1)
			} else {
				s.pop(n)
			}
			if n > len(m) {
				beyond++
				n = len(m)
			}
			m = m[:len(m)-n]
			pops += n
		case "peek":
			err = same(what, o.N)
		case "look":
			if !s.keyed() {
				break
			}
			got, ok := s.look(o.Key)
			want, have := find(o.Key)
			if ok != have || ok && got != want {
				err = errorf("lookup gives the push number %d (found: %v), want %d (%v)", got, ok, want, have)
			}
		}
		if len(m) > most {
			most = len(m)
		}
		if err == nil && s.size() != len(m) {
			err = errorf("the length is %d, want %d", s.size(), len(m))
		}
		if err == nil {
			err = same(what, len(m)+1)
		}
		if err == nil && len(m) > 0 {
			err = same(what, 1)
		}
		if err == nil && s.keyed() {
			for _, k := range []string{"a", "b", "b7", "xml"} {
				got, ok := s.look(k)
				want, have := find(k)
				if ok != have || ok && got != want {
					err = errorf("%s: then lookup(%q) gives the push number %d (found: %v), want %d (%v)", what, k, got, ok, want, have)
				}
			}
		}
		if err != nil {
			return failf("%s: %v\noperations: %v", what, err, ops[:i+1])
		}
	}
	out.NonTrivial = pops > 2 && most > 3
	if most > 40 {
		out.Labels = append(out.Labels, "more than 40 entries")
	}
	if beyond > 0 {
		out.Labels = append(out.Labels, "popped more than there is")
	}
	return out
}

// ---- through documents ----

type scopeGen struct {
	t    *rapid.T
	left int
}

// grow draws an element with a run of nested elements below it, then
// siblings after the run has ended at some level
func (g *scopeGen) grow(scope []NSDecl, depth int) *N {
	t := g.t
	n := &N{K: KElem, Name: pick(t, []string{"a", "b", "c", "d"})}
	if chance(t, 1, 2) {
		seen := map[string]bool{}
		max := 3
		if chance(t, 1, 8) {
			max = 26
		}
		for i := ri(t, 1, max); i > 0; i-- {
			p := fmt.Sprintf("p%d", ri(t, 0, max+2))
			if seen[p] {
				continue
			}
			seen[p] = true
			n.NS = append(n.NS, NSDecl{p, fmt.Sprintf("http://u%d/", ri(t, 0, 50))})
		}
		if chance(t, 1, 3) {
			n.NS = append(n.NS, NSDecl{"", fmt.Sprintf("http://u%d/", ri(t, 0, 50))})
		}
	}
	scope = append(scope[:len(scope):len(scope)], n.NS...)
	if len(scope) > 0 && chance(t, 2, 3) {
		if p := pick(t, scope).Prefix; p != "" {
			n.Name = p + ":" + n.Name
		}
	}
	text := func() {
		if chance(t, 1, 2) {
			n.Kids = append(n.Kids, &N{K: KText, Text: pick(t, []string{"x", "yz", " "})})
		}
	}
	text()
	kids := 1
	if chance(t, 1, 3) {
		kids = ri(t, 0, 5)
	}
	for ; kids > 0 && g.left > 0 && depth < 120; kids-- {
		g.left--
		n.Kids = append(n.Kids, g.grow(scope, depth+1))
		text()
	}
	n.Kids = norm(n.Kids)
	return n
}

type scopeCase struct {
	Src  []byte
	Root *N
}

func genScopeCase(t *rapid.T) scopeCase {
	g := &scopeGen{t: t, left: ri(t, 1, 60)}
	if chance(t, 1, 10) {
		g.left = 300
	}
	root := g.grow(nil, 0)
	return scopeCase{spell(t, &Doc{Root: root}), root}
}

func checkScope(c scopeCase) Out {
	d := &Doc{Root: c.Root}
	if err := d.Root.resolve(nil); err != nil {
		return Out{}
	}
	src := c.Src
	out := Out{Sample: string(src)}
	depth, n := 0, 0
	var walk func(e *N, l int)
	walk = func(e *N, l int) {
		if e.K != KElem {
			return
		}
		n++
		if l > depth {
			depth = l
		}
		for _, k := range e.Kids {
			walk(k, l+1)
		}
	}
	walk(d.Root, 1)
	out.NonTrivial = depth > 4 && n > 6
	if depth > 20 {
		out.Labels = append(out.Labels, "deeper than 20")
	}
	if out.Err = checkTree(src, d, canonOpt{}); out.Err == nil {
		out.Err = nsEvents(src, d.Root, false)
	}
	return out
}

// nested entities make the parser push and pop inputs
type inputCase struct {
	Texts [][]string // entity i: pieces; "&en;" refers to a later entity
	Attr  bool       // refer to them in an attribute value
}

func genInputCase(t *rapid.T) inputCase {
	n := ri(t, 2, 30)
	c := inputCase{Attr: rb(t)}
	pool := []string{"x", "y", "z"}
	if !c.Attr {
		pool = append(pool, "<b>w</b>", "<c/>", "<b><c/>v</b>")
	}
	for i := 0; i < n; i++ {
		var ps []string
		refs := 0
		for k := ri(t, 1, 4); k > 0; k-- {
			if i+1 < n && (refs == 0 && k == 1 && chance(t, 9, 10) || refs < 2 && chance(t, 1, 3)) {
				refs++
				to := i + 1
				if refs > 1 {
					// the second reference skips ahead, so that the
					// text does not explode
					to = n - 1 - ri(t, 0, (n-i-2)/3)
				}
				ps = append(ps, fmt.Sprintf("&e%d;", to))
				continue
			}
			ps = append(ps, pick(t, pool)+fmt.Sprint(i))
		}
		c.Texts = append(c.Texts, ps)
	}
	return c
}

func checkInput(c inputCase) Out {
	depth := make([]int, len(c.Texts))
	text := make([]string, len(c.Texts))
	for i := len(c.Texts) - 1; i >= 0; i-- {
		depth[i] = 1
		for _, p := range c.Texts[i] {
			k := 0
			if _, err := fmt.Sscanf(p, "&e%d;", &k); err != nil {
				text[i] += p
				continue
			}
			if k <= i || k >= len(text) {
				return Out{}
			}
			text[i] += text[k]
			if depth[k]+1 > depth[i] {
				depth[i] = depth[k] + 1
			}
		}
		if len(text[i]) > 20000 {
			return Out{Labels: []string{"too big"}}
		}
	}
	var b strings.Builder
	b.WriteString("<!DOCTYPE r [\n")
	for i := range c.Texts {
		fmt.Fprintf(&b, "<!ENTITY e%d '%s'>\n", i, strings.Join(c.Texts[i], ""))
	}
	b.WriteString("]>\n")
	if c.Attr {
		b.WriteString("<r a='[&e0;]'><s a='&e1;'/></r>")
	} else {
		b.WriteString("<r>[&e0;]<s>&e1;</s></r>")
	}
	src := b.String()
	out := Out{NonTrivial: depth[0] > 3, Sample: src}
	if depth[0] > 15 {
		out.Labels = append(out.Labels, "deeper than 15")
	}
	doc, err := helium.Parse([]byte(src))
	if err != nil {
		out.Err = errorf("rejected: %v\n%s", err, src)
		return out
	}
	var got, want string
	if c.Attr {
		want = "[" + text[0] + "] " + text[1]
		root := docRoot(doc)
		var vs []string
		for _, e := range []helium.Node{root, root.FirstChild()} {
			for _, a := range e.(*helium.Element).Attributes() {
				vs = append(vs, a.Value())
			}
		}
		got = strings.Join(vs, " ")
	} else {
		want = "<r>[" + text[0] + "]<s>" + text[1] + "</s></r>"
		want = strings.Replace(want, "<c></c>", "<c/>", -1)
		var w strings.Builder
		if err := expandNode(&w, doc, docRoot(doc), 0); err != nil {
			out.Err = errorf("%v\n%s", err, src)
			return out
		}
		got = w.String()
	}
	if got != want {
		out.Err = errorf("the references give %s\nwant %s\n%s", cut(got, 2000), cut(want, 2000), src)
	}
	return out
}

// expandNode writes the markup of a node with the references replaced
func expandNode(w *strings.Builder, doc *helium.Document, n helium.Node, depth int) error {
	if depth > 500 {
		return errorf("too deep")
	}
	kids := func(n helium.Node) error {
		for k := n.FirstChild(); k != nil; k = k.NextSibling() {
			if err := expandNode(w, doc, k, depth+1); err != nil {
				return err
			}
		}
		return nil
	}
	switch n.Type() {
	case helium.ElementNode:
		if n.FirstChild() == nil {
			w.WriteString("<" + n.Name() + "/>")
			return nil
		}
		w.WriteString("<" + n.Name() + ">")
		if err := kids(n); err != nil {
			return err
		}
		w.WriteString("</" + n.Name() + ">")
	case helium.TextNode:
		w.Write(n.Content())
	case helium.EntityRefNode:
		e, ok := doc.GetEntity(n.Name())
		if !ok {
			return errorf("the entity %s is not there", n.Name())
		}
		return kids(e)
	default:
		return errorf("an unexpected node: %s %s", n.Type(), n.Name())
	}
	return nil
}

func cut(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func init() {
	prop("P14", "at least 3 entries popped and 4 present at once (stacks), more than 6 elements nested deeper than 4 (scopes)")
	reg("P14", "scopes", 30000, 1500000, genScopeCase, checkScope)
	reg("P14", "inputs", 15000, 800000, genInputCase, checkInput)
}

func docRoot(doc *helium.Document) helium.Node {
	for k := doc.FirstChild(); k != nil; k = k.NextSibling() {
		if k.Type() == helium.ElementNode {
			return k
		}
	}
	return nil
}
