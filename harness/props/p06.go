package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P06: tree links stay consistent under every sequence of mutations.

// MOp is an operation. A and B are indexes into the pool of nodes.
type MOp struct {
	Op   string
	A, B int
	S    string
}

type mutCase struct {
	Src   string `json:",omitempty"` // a document that is in the pool, too
	Kinds string // kinds of the nodes in the pool: D e t c p r a
	Ops   []MOp
}

// mNode is a node of the model
type mNode struct {
	kind  byte
	id    int
	text  string
	list  *mList // the list it is in
	kids  *mList
	attrs *mList
	doc   *mNode
	h     helium.Node
}

// mList is a list of siblings
type mList struct {
	owner *mNode
	items []*mNode
}

func (l *mList) index(n *mNode) int {
	for i, x := range l.items {
		if x == n {
			return i
		}
	}
	return -1
}

func (n *mNode) parent() *mNode { return n.list.owner }

func (n *mNode) unlink() {
	i := n.list.index(n)
	n.list.items = append(append([]*mNode(nil), n.list.items[:i]...), n.list.items[i+1:]...)
	n.list = &mList{items: []*mNode{n}}
}

func (n *mNode) setDoc(d *mNode) {
	if d == nil {
		return
	}
	n.doc = d
	for _, k := range n.kids.items {
		k.setDoc(d)
	}
	for _, k := range n.attrs.items {
		k.setDoc(d)
	}
}

func (n *mNode) isAncestorOf(x *mNode) bool {
	for p := x.parent(); p != nil; p = p.parent() {
		if p == n {
			return true
		}
	}
	return false
}

// append puts x at the end of the list, l.owner or some sibling being n
func (l *mList) append(n, x *mNode) {
	x.unlink()
	if k := len(l.items); k > 0 && l.items[k-1].kind == 't' && x.kind == 't' {
		l.items[k-1].text += x.text
		return
	}
	l.items = append(l.items, x)
	x.list = l
	d := n.doc
	if n.kind == 'D' {
		d = n
	}
	x.setDoc(d)
}

// scribble changes a buffer that has been given to the library: what the tree
// holds is what was in it at the time of the call
func scribble(b []byte) {
	for i := range b {
		b[i] = '#'
	}
}

const (
	mOK = iota
	mRefused
)

type mWorld struct {
	pool []*mNode
}

func newNode(kind byte, id int, text string, h helium.Node) *mNode {
	n := &mNode{kind: kind, id: id, text: text, h: h}
	n.list = &mList{items: []*mNode{n}}
	n.kids = &mList{owner: n}
	n.attrs = &mList{owner: n}
	return n
}

// load puts the nodes of a tree into the pool
func (w *mWorld) load(h helium.Node, doc *mNode) (*mNode, error) {
	n := newNode(0, len(w.pool), "", h)
	n.doc = doc
	switch h.Type() {
	case helium.DocumentNode:
		n.kind, n.doc, doc = 'D', nil, n
	case helium.ElementNode:
		n.kind = 'e'
	case helium.TextNode:
		n.kind, n.text = 't', string(h.Content())
	case helium.CommentNode:
		n.kind, n.text = 'c', string(h.Content())
	case helium.ProcessingInstructionNode:
		n.kind, n.text = 'p', string(h.Content())
	case helium.EntityRefNode:
		n.kind, n.text = 'r', string(h.Content())
	case helium.DTDNode:
		n.kind = 'd'
	default:
		return nil, fmt.Errorf("node of type %s", h.Type())
	}
	w.pool = append(w.pool, n)
	if e, ok := h.(*helium.Element); ok {
		for _, a := range e.Attributes() {
			x := newNode('a', len(w.pool), a.Value(), a)
			x.doc, x.list = doc, n.attrs
			n.attrs.items = append(n.attrs.items, x)
			w.pool = append(w.pool, x)
			if err := w.loadValue(x); err != nil {
				return nil, err
			}
		}
	}
	if n.kind != 'e' && n.kind != 'D' {
		return n, nil
	}
	for k := h.FirstChild(); k != nil; k = k.NextSibling() {
		x, err := w.load(k, doc)
		if err != nil {
			return nil, err
		}
		x.list = n.kids
		n.kids.items = append(n.kids.items, x)
		if len(n.kids.items) > 10000 {
			return nil, fmt.Errorf("endless list of children")
		}
	}
	return n, nil
}

// loadValue puts the nodes of the value of an attribute into the pool
func (w *mWorld) loadValue(n *mNode) error {
	for k := n.h.FirstChild(); k != nil; k = k.NextSibling() {
		x, err := w.load(k, n.doc)
		if err != nil {
			return err
		}
		if x.kind != 't' && x.kind != 'r' {
			return fmt.Errorf("%s in the value of an attribute", k.Type())
		}
		x.list = n.kids
		n.kids.items = append(n.kids.items, x)
		if len(n.kids.items) > 10000 {
			return fmt.Errorf("endless list of children")
		}
	}
	if v := n.value(); v != n.text {
		return fmt.Errorf("the nodes of the value are %q instead of %q", v, n.text)
	}
	return nil
}

// value is the value of an attribute
func (n *mNode) value() string {
	var b strings.Builder
	for _, k := range n.kids.items {
		b.WriteString(k.text)
	}
	return b.String()
}

// fits tells whether x may be a child of n
func (n *mNode) fits(x *mNode) bool {
	return n == nil || n.kind != 'a' || x.kind == 't' || x.kind == 'r'
}

func newWorld(src, kinds string) (*mWorld, error) {
	w := &mWorld{}
	var docs, values []*mNode
	var doc *helium.Document
	if src != "" {
		d, err := helium.Parse([]byte(src))
		if err != nil {
			return nil, err
		}
		n, err := w.load(d, nil)
		if err != nil {
			return nil, err
		}
		doc, docs = d, append(docs, n)
	}
	for ki := 0; ki < len(kinds); ki++ {
		i := len(w.pool)
		k := kinds[ki]
		if k == 'D' {
			d := helium.CreateDocument()
			n := newNode('D', i, "", d)
			docs = append(docs, n)
			w.pool = append(w.pool, n)
			doc = d
			continue
		}
		if doc == nil {
			return nil, fmt.Errorf("no document")
		}
		var h helium.Node
		var err error
		text := ""
		long := ""
		switch k {
		case 'T', 'C', 'P':
			// with much text
			k += 'a' - 'A'
			long = strings.Repeat("long;", 10*(1+i*i*37%331))
		}
		switch k {
		case 'e':
			h, err = doc.CreateElement(fmt.Sprintf("e%d", i))
		case 't':
			text = fmt.Sprintf("t%d;", i) + long
			buf := []byte(text)
			h, err = doc.CreateText(buf)
			scribble(buf)
		case 'c':
			text = fmt.Sprintf("c%d;", i) + long
			buf := []byte(text)
			h, err = doc.CreateComment(buf)
			scribble(buf)
		case 'p':
			text = fmt.Sprintf("p%d;", i) + long
			h, err = doc.CreatePI(fmt.Sprintf("pi%d", i), text)
		case 'r':
			h, err = doc.CreateReference(fmt.Sprintf("r%d", i))
		case 'a':
			text = fmt.Sprintf("v%d", i)
			h, err = doc.CreateAttribute(fmt.Sprintf("a%d", i), text, nil)
		default:
			return nil, fmt.Errorf("kind %c", k)
		}
		if err != nil {
			return nil, err
		}
		n := newNode(k, i, text, h)
		n.doc = docs[len(docs)-1]
		w.pool = append(w.pool, n)
		if k == 'a' {
			values = append(values, n)
		}
	}
	for _, n := range values { // the operations count on the order of the others
		if err := w.loadValue(n); err != nil {
			return nil, err
		}
	}
	return w, nil
}

// apply performs the operation on the model and on the tree. It returns
// whether it had an effect
func (w *mWorld) apply(op MOp) (effect bool, err error) {
	if op.A >= len(w.pool) || op.B >= len(w.pool) {
		return false, nil
	}
	a, b := w.pool[op.A], w.pool[op.B]
	want := mRefused
	var do func()
	var herr error
	if b.kind == 'd' || a.kind == 'd' && op.Op != "sibling" {
		return false, nil // the document type declaration stays where it is
	}
	switch op.Op {
	case "child":
		herr = a.h.AddChild(b.h)
		switch {
		case a == b:
		case a.kind == 't' || a.kind == 'c':
			if b.kind == a.kind {
				want = mOK
				do = func() { b.unlink(); a.text += b.text }
			}
		case a.kind == 'p' || a.kind == 'r':
		case !a.fits(b):
		case b.kind == 'D' || b.kind == 'a' || b.isAncestorOf(a):
		default:
			want = mOK
			do = func() { a.kids.append(a, b) }
		}
	case "sibling":
		herr = a.h.AddSibling(b.h)
		switch {
		case a == b, a.kind == 'D', b.kind == 'D', (a.kind == 'a') != (b.kind == 'a'), b.isAncestorOf(a), !a.parent().fits(b):
		default:
			want = mOK
			do = func() { l := a.list; b.unlinkFor(l); l.append(a, b) }
		}
	case "replace":
		if a.kind == 'D' {
			return false, nil // panics by design
		}
		a.h.Replace(b.h)
		switch {
		case a == b, b.kind == 'D', (a.kind == 'a') != (b.kind == 'a'), b.isAncestorOf(a), !a.parent().fits(b):
		default:
			b.unlink()
			l := a.list
			i := l.index(a)
			l.items = append([]*mNode(nil), l.items...)
			l.items[i] = b
			b.list = l
			b.setDoc(a.doc)
			a.list = &mList{items: []*mNode{a}}
			effect = true
		}
		return effect, nil
	case "content":
		buf := []byte(op.S)
		herr = a.h.AddContent(buf)
		scribble(buf)
		switch a.kind {
		case 't', 'c', 'p':
			want = mOK
			do = func() { a.text += op.S }
		case 'e', 'D', 'a':
			want = mOK
			do = func() {
				// the new text is not a node of the pool unless it is merged
				if k := len(a.kids.items); k > 0 && a.kids.items[k-1].kind == 't' {
					a.kids.items[k-1].text += op.S
					return
				}
				h := a.h.LastChild()
				n := newNode('t', len(w.pool), op.S, h)
				n.doc = a.doc
				w.pool = append(w.pool, n)
				a.kids.append(a, n)
			}
		}
	case "root":
		d, ok := a.h.(*helium.Document)
		if !ok || b.kind != 'e' && b.kind != 'D' && b.kind != 'a' {
			return false, nil
		}
		herr = d.SetDocumentElement(b.h)
		if b.kind == 'e' {
			want = mOK
			do = func() {
				for _, k := range a.kids.items {
					if k.kind != 'e' {
						continue
					}
					if k == b {
						return
					}
					b.unlink()
					i := a.kids.index(k)
					a.kids.items = append([]*mNode(nil), a.kids.items...)
					a.kids.items[i] = b
					b.list = a.kids
					b.setDoc(a)
					k.list = &mList{items: []*mNode{k}}
					return
				}
				a.kids.append(a, b)
			}
		}
	case "attr":
		e, ok := a.h.(*helium.Element)
		if !ok {
			return false, nil
		}
		name := fmt.Sprintf("a%d", op.B)
		herr = e.SetAttribute(name, op.S)
		dup := false
		for _, x := range a.attrs.items {
			dup = dup || x.h.Name() == name
		}
		if !dup {
			want = mOK
			do = func() {
				l := e.Attributes()
				n := newNode('a', len(w.pool), mutRefs.Replace(op.S), nil)
				if len(l) > 0 {
					n.h = l[len(l)-1]
				}
				n.doc = a.doc
				w.pool = append(w.pool, n)
				n.list = a.attrs
				a.attrs.items = append(a.attrs.items, n)
				if n.h != nil {
					err = w.loadValue(n)
				}
			}
		}
	case "subset":
		d, ok := a.h.(*helium.Document)
		if !ok {
			return false, nil
		}
		var dtd *helium.DTD
		dtd, herr = d.CreateInternalSubset("x", "", "")
		had := false
		for _, k := range a.kids.items {
			had = had || k.kind == 'd'
		}
		if !had {
			want = mOK
			do = func() {
				n := newNode('d', len(w.pool), "", dtd)
				n.doc, n.list = a, a.kids
				w.pool = append(w.pool, n)
				// before the first element
				i := 0
				for i < len(a.kids.items) && a.kids.items[i].kind != 'e' {
					i++
				}
				a.kids.items = append(a.kids.items[:i:i], append([]*mNode{n}, a.kids.items[i:]...)...)
			}
		}
	case "doc":
		d, ok := b.h.(*helium.Document)
		if !ok || a.kind == 'D' || a.parent() != nil || len(a.list.items) > 1 {
			return false, nil
		}
		a.h.SetTreeDoc(d)
		a.setDoc(b)
		if a.h.OwnerDocument() != d {
			return false, fmt.Errorf("%s does not belong to the document it is given to", a)
		}
		return true, w.checkDoc(b, a)
	case "nil":
		if a.kind == 'D' && op.S == "s" {
			return false, nil
		}
		if op.S == "s" {
			herr = a.h.AddSibling(nil)
		} else {
			herr = a.h.AddChild(nil)
		}
	default:
		return false, fmt.Errorf("unknown op")
	}
	switch {
	case want == mOK && herr != nil:
		return false, fmt.Errorf("refused: %v", herr)
	case want == mRefused && herr == nil:
		return false, fmt.Errorf("not refused")
	}
	if do != nil {
		do()
		effect = true
	}
	return effect, err
}

// unlinkFor unlinks n, keeping l in use if n is in it
func (n *mNode) unlinkFor(l *mList) {
	if n.list != l {
		n.unlink()
		return
	}
	i := l.index(n)
	l.items = append(append([]*mNode(nil), l.items[:i]...), l.items[i+1:]...)
	n.list = &mList{items: []*mNode{n}}
}

func hOf(n *mNode) helium.Node {
	if n == nil {
		return nil
	}
	return n.h
}

func sameOrNil(got helium.Node, want *mNode) bool {
	if want == nil {
		return got == nil
	}
	return got != nil && got == want.h
}

func descr(n helium.Node) string {
	if n == nil {
		return "none"
	}
	return fmt.Sprintf("%s %q %q", n.Type(), n.Name(), n.Content())
}

func (n *mNode) String() string {
	if n == nil {
		return "none"
	}
	return fmt.Sprintf("%c%d", n.kind, n.id)
}

// plainText is the text below n if that is all there is besides elements
func (n *mNode) plainText(b *strings.Builder) bool {
	for _, k := range n.kids.items {
		switch k.kind {
		case 't':
			b.WriteString(k.text)
		case 'e':
			if !k.plainText(b) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (w *mWorld) check() error {
	for _, n := range w.pool {
		if n.h == nil {
			return fmt.Errorf("%s is not in the tree", n)
		}
		i := n.list.index(n)
		var prev, next *mNode
		if i > 0 {
			prev = n.list.items[i-1]
		}
		if i+1 < len(n.list.items) {
			next = n.list.items[i+1]
		}
		type link struct {
			what string
			got  helium.Node
			want *mNode
		}
		links := []link{{"parent", n.h.Parent(), n.parent()}, {"previous sibling", n.h.PrevSibling(), prev}, {"next sibling", n.h.NextSibling(), next}}
		if n.kind == 'e' || n.kind == 'D' || n.kind == 'a' {
			var first, last *mNode
			if k := len(n.kids.items); k > 0 {
				first, last = n.kids.items[0], n.kids.items[k-1]
			}
			links = append(links, link{"first child", n.h.FirstChild(), first}, link{"last child", n.h.LastChild(), last})
		}
		for _, l := range links {
			if !sameOrNil(l.got, l.want) {
				return fmt.Errorf("the %s of %s is %s instead of %s", l.what, n, descr(l.got), l.want)
			}
		}
		switch n.kind {
		case 't', 'c', 'p', 'r':
			if string(n.h.Content()) != n.text {
				return fmt.Errorf("the content of %s is %q instead of %q", n, n.h.Content(), n.text)
			}
		case 'a':
			a := n.h.(*helium.Attribute)
			if v := n.value(); a.Value() != v {
				return fmt.Errorf("the value of %s is %q instead of %q", n, a.Value(), v)
			}
			for _, k := range n.kids.items {
				if k.h.OwnerDocument() != a.OwnerDocument() {
					return fmt.Errorf("%s in %s does not belong to the document of the attribute", k, n)
				}
			}
		case 'e':
			as := n.h.(*helium.Element).Attributes()
			if len(as) != len(n.attrs.items) {
				return fmt.Errorf("%s has %d attributes instead of %d", n, len(as), len(n.attrs.items))
			}
			for i, a := range as {
				if helium.Node(a) != n.attrs.items[i].h {
					return fmt.Errorf("attribute %d of %s is %s instead of %s", i, n, descr(a), n.attrs.items[i])
				}
			}
			var b strings.Builder
			if n.plainText(&b) && string(n.h.Content()) != b.String() {
				return fmt.Errorf("the content of %s is %q instead of %q", n, n.h.Content(), b.String())
			}
		case 'D':
			if err := w.checkDoc(n, n); err != nil {
				return err
			}
			continue
		}
	}
	return nil
}

// mutRefs resolves the references in the values that are set
var mutRefs = strings.NewReplacer("&lt;", "<", "&amp;", "&", "&#x26;", "&")

// checkDoc checks that all below n belong to d
func (w *mWorld) checkDoc(d, n *mNode) error {
	for _, l := range [][]*mNode{n.kids.items, n.attrs.items} {
		for _, k := range l {
			if k.h.OwnerDocument() != d.h.(*helium.Document) {
				return fmt.Errorf("%s does not belong to the document it is in", k)
			}
			if err := w.checkDoc(d, k); err != nil {
				return err
			}
		}
	}
	return nil
}

// genMutSrc draws a document and tells the kinds of its nodes
func genMutSrc(t *rapid.T) (src, kinds string) {
	var s, k strings.Builder
	k.WriteString("D")
	n := 0
	misc := func() {
		for chance(t, 1, 5) {
			n++
			if rb(t) {
				fmt.Fprintf(&s, "<!--m%d-->", n)
				k.WriteByte('c')
			} else {
				fmt.Fprintf(&s, "<?m%d x?>", n)
				k.WriteByte('p')
			}
		}
	}
	ent := chance(t, 1, 3)
	var elem func(depth int)
	elem = func(depth int) {
		n++
		name := fmt.Sprintf("x%d", n)
		s.WriteString("<" + name)
		k.WriteByte('e')
		for i := 0; chance(t, 1, 4); i++ {
			fmt.Fprintf(&s, " b%d='w%d'", i, i)
			k.WriteByte('a')
		}
		s.WriteString(">")
		text := false
		for i := ri(t, 0, 4); i > 0; i-- {
			n++
			switch ri(t, 0, 6) {
			case 6:
				if ent {
					s.WriteString("&e;")
					k.WriteByte('r')
					text = false
				}
			case 0, 1:
				if depth > 0 {
					elem(depth - 1)
					text = false
				}
			case 2:
				fmt.Fprintf(&s, "<!--k%d-->", n)
				k.WriteByte('c')
				text = false
			case 3:
				fmt.Fprintf(&s, "<?q%d d%d?>", n, n)
				k.WriteByte('p')
				text = false
			default:
				fmt.Fprintf(&s, "t%d;", n)
				if !text {
					k.WriteByte('t')
				}
				text = true
			}
		}
		s.WriteString("</" + name + ">")
	}
	misc()
	if ent || chance(t, 1, 4) {
		s.WriteString("<!DOCTYPE x1 [<!ENTITY e 'v'><!ENTITY f '<x/>w'>]>")
		k.WriteByte('d')
		misc()
	}
	elem(3)
	misc()
	return s.String(), k.String()
}

func genMutCase(t *rapid.T) mutCase {
	var c mutCase
	var b strings.Builder
	b.WriteString("D")
	n := ri(t, 2, 12)
	second := chance(t, 1, 3)
	for i := 0; i < n; i++ {
		if second && i == n/2 {
			b.WriteByte('D')
		}
		k := pick(t, []byte("eeeettttccpraa"))
		if strings.IndexByte("tcp", k) >= 0 && chance(t, 1, 12) {
			k -= 'a' - 'A' // with much text
		}
		b.WriteByte(k)
	}
	c.Kinds = b.String()
	size := len(c.Kinds)
	all := strings.NewReplacer("T", "t", "C", "c", "P", "p").Replace(c.Kinds)
	if chance(t, 1, 4) {
		// in front of the others
		var k string
		c.Src, k = genMutSrc(t)
		all = k + all
		size = len(all)
	}
	max := 12
	if chance(t, 1, 3) {
		max = 60
	}
	for k := ri(t, 1, max); k > 0; k-- {
		op := MOp{Op: pick(t, []string{"child", "child", "child", "child", "sibling", "sibling", "sibling", "replace", "replace", "content", "root", "attr", "nil", "subset", "doc"})}
		// nodes made by the operations come into the pool, too
		op.A, op.B = uni(t, size+2), uni(t, size+2)
		if op.Op == "child" || op.Op == "attr" {
			if i := uni(t, size); all[i] == 'e' || all[i] == 'D' || chance(t, 1, 3) {
				op.A = i
			} else if i := strings.IndexByte(all[i:], 'e'); i > 0 {
				op.A = i
			}
		}
		if (op.Op == "root" || op.Op == "subset") && chance(t, 3, 4) {
			op.A = 0
		}
		if op.Op == "doc" {
			if i := strings.LastIndexByte(all, 'D'); i > 0 && rb(t) {
				op.B = i
			} else {
				op.B = 0
			}
		}
		switch op.Op {
		case "content":
			op.S = pick(t, []string{"x", "yy", "é", "&", ""})
			if chance(t, 1, 40) {
				op.S = strings.Repeat("more ", ri(t, 10, 1000))
			}
		case "attr":
			op.S = pick(t, []string{"1", "v w", "日本", "a&lt;b", "&#x26;&amp;"})
		case "nil":
			op.S = pick(t, []string{"s", "c"})
		}
		c.Ops = append(c.Ops, op)
	}
	return c
}

func runMut(c mutCase) Out {
	w, err := newWorld(c.Src, c.Kinds)
	if err != nil {
		return failf("%v", err)
	}
	effects, moved := 0, 0
	var log strings.Builder
	fmt.Fprintf(&log, "nodes: %s\n", c.Kinds)
	if err := w.check(); err != nil {
		return failf("at the start: %v", err)
	}
	for _, op := range c.Ops {
		if op.A >= len(w.pool) || op.B >= len(w.pool) {
			continue
		}
		a, b := w.pool[op.A], w.pool[op.B]
		linked := b.parent() != nil && (op.Op == "child" || op.Op == "sibling" || op.Op == "replace" || op.Op == "root")
		fmt.Fprintf(&log, "%s %s %s %q\n", op.Op, a, b, op.S)
		eff, err := w.apply(op)
		if err == nil {
			err = w.check()
		}
		if err != nil {
			return Out{Err: fmt.Errorf("%v, after\n%s", err, log.String()), Sample: log.String()}
		}
		if eff {
			effects++
			if linked {
				moved++
			}
		}
	}
	out := Out{NonTrivial: effects >= 3, Sample: log.String()}
	if moved > 0 {
		out.Labels = append(out.Labels, "moves linked nodes")
	}
	if effects >= 10 {
		out.Labels = append(out.Labels, "10+ effective operations")
	}
	return out
}

func init() {
	prop("P06", "at least 3 operations have an effect")
	reg("P06", "operations", 600000, 12000000, genMutCase, runMut)
}
