package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P15: a parse depends on its input only.

type detCase struct {
	Docs  [][]byte
	Modes []int // 0: tree, 1: events and tree, 2: events alone
	Order []int // the history of one parser
	Par   int   // goroutines
}

// describe says everything there is to know about a document
func describe(doc *helium.Document) string {
	var b strings.Builder
	if m, err := fromDOM(doc, true); err != nil {
		fmt.Fprintf(&b, "tree: %v\n", err)
	} else {
		b.WriteString(m.canon(canonOpt{}))
	}
	if s, err := doc.XMLString(); err != nil {
		fmt.Fprintf(&b, "serialising: %v\n", err)
	} else {
		b.WriteString(s)
	}
	seen := map[string]bool{}
	refs := 0
	var ents []string
	note := func(name string) {
		if e, ok := doc.GetEntity(name); ok && !seen[name] {
			seen[name] = true
			ents = append(ents, name)
			fmt.Fprintf(&b, "entity %s %d %q\n", name, e.EntityType(), e.Content())
		}
	}
	for _, n := range []string{"lt", "gt", "amp", "quot", "apos"} {
		note(n)
	}
	helium.Walk(doc, func(n helium.Node) error {
		if n.Type() == helium.EntityRefNode {
			refs++
			note(n.Name())
			if k := n.FirstChild(); k != nil {
				fmt.Fprintf(&b, "reference %s -> %s %s\n", n.Name(), k.Type(), k.Name())
			}
		}
		return nil
	})
	for i := 0; i < len(ents) && i < 50; i++ {
		e, _ := doc.GetEntity(ents[i])
		k := 0
		for c := e.FirstChild(); c != nil && k < 100; c = c.NextSibling() {
			k++
			s, err := dumpNode(c)
			fmt.Fprintf(&b, "entity %s: %s %s %q %v\n", ents[i], c.Type(), c.Name(), s, err)
			helium.Walk(c, func(n helium.Node) error {
				if n.Type() == helium.EntityRefNode {
					note(n.Name())
				}
				return nil
			})
		}
	}
	return b.String()
}

// run parses a document and tells what came out
func detRun(p *helium.Parser, src []byte, mode int) (string, *helium.Document) {
	var r *recorder
	switch mode {
	case 1, 2:
		r = newRecorder(mode == 1)
		p.SetSAXHandler(r)
	default:
		p.SetSAXHandler(helium.NewTreeBuilder())
	}
	doc, err := p.Parse(src)
	var b strings.Builder
	if err != nil {
		fmt.Fprintf(&b, "error: %v\n", err)
	}
	if r != nil {
		b.WriteString(evLines(r.evs))
	}
	if doc != nil && mode < 2 {
		b.WriteString(describe(doc))
	}
	return b.String(), doc
}

// spoil changes everything in a document that can be changed
func spoil(doc *helium.Document) {
	var nodes []helium.Node
	helium.Walk(doc, func(n helium.Node) error {
		nodes = append(nodes, n)
		return nil
	})
	for _, n := range nodes {
		switch x := n.(type) {
		case *helium.Element:
			x.SetAttribute("spoilt", "yes")
			for _, a := range x.Attributes() {
				a.AddContent([]byte("spoilt"))
			}
			x.AddContent([]byte("spoilt"))
			x.SetNamespace("spoilt", "urn:spoilt")
		case *helium.Text:
			x.AddContent([]byte("spoilt"))
		case *helium.Comment:
			x.AddContent([]byte("spoilt"))
		}
	}
	for _, name := range []string{"e0", "e1", "e2", "ent", "a", "b"} {
		if e, ok := doc.GetEntity(name); ok {
			for k := e.FirstChild(); k != nil; k = k.NextSibling() {
				if el, ok := k.(*helium.Element); ok {
					el.SetAttribute("spoilt", "yes")
				}
			}
		}
	}
}

func (c *detCase) sample() string {
	var b strings.Builder
	fmt.Fprintf(&b, "order %v, modes %v, %d goroutines\n", c.Order, c.Modes, c.Par)
	for i, d := range c.Docs {
		fmt.Fprintf(&b, "%d: %s\n", i, cut(string(d), 200))
	}
	return b.String()
}

func genDetDoc(t *rapid.T) []byte {
	switch ri(t, 0, 9) {
	case 0, 1, 2:
		return spell(t, genDoc(t, GenOpt{MaxElems: 6, DTD: true}))
	case 3:
		return genSource(t)
	case 4:
		return genBadEnt(t).Src
	case 5:
		c := genEntCase(t)
		return c.Src
	case 6:
		d := &Doc{DTD: genCrowdedDTD(t), Root: &N{K: KElem, Name: "r"}}
		return spell(t, d)
	case 7:
		// look-alikes: the same names, other meanings
		v := ri(t, 0, 3)
		return []byte(fmt.Sprintf("<!DOCTYPE r [<!ENTITY e1 'v%d<b>&e2;</b>'><!ENTITY e2 'w%d'><!ATTLIST r a CDATA 'd%d' b NMTOKENS ' x  y%d '><!ELEMENT r %s><!ELEMENT b ANY>]><r c='&e2;' xmlns:p='urn:%d'> <b/> &e1;&amp;&lt;<p:x/></r>",
			v, v, v, v, pick(t, []string{"ANY", "(b,b?)", "(#PCDATA|b)*", "EMPTY"}), v))
	case 8:
		c, _ := genAtts(t)
		return c.Src
	default:
		return spell(t, genDoc(t, GenOpt{MaxElems: 15}))
	}
}

func genDetCase(t *rapid.T) detCase {
	var c detCase
	n := ri(t, 2, 5)
	for i := 0; i < n; i++ {
		d := genDetDoc(t)
		if len(d) > 20000 {
			d = d[:20000]
		}
		c.Docs = append(c.Docs, d)
		c.Modes = append(c.Modes, pick(t, []int{0, 0, 1, 2}))
	}
	if chance(t, 1, 4) {
		// the same document, edited
		c.Docs = append(c.Docs, mutate(t, c.Docs[0], 1))
		c.Modes = append(c.Modes, c.Modes[0])
	}
	for i := ri(t, 3, 10); i > 0; i-- {
		c.Order = append(c.Order, uni(t, len(c.Docs)))
	}
	c.Par = ri(t, 2, 6)
	return c
}

func (c *detCase) ok() bool {
	if len(c.Docs) == 0 || len(c.Modes) < len(c.Docs) {
		return false
	}
	for _, i := range c.Order {
		if i < 0 || i >= len(c.Docs) {
			return false
		}
	}
	return true
}

// baseline parses every document on its own
func (c *detCase) baseline() (base []string, fails int) {
	for i, d := range c.Docs {
		s, _ := detRun(helium.NewParser(), append([]byte(nil), d...), c.Modes[i])
		base = append(base, s)
		if strings.HasPrefix(s, "error") {
			fails++
		}
	}
	return base, fails
}

func differs(what string, want, got string) error {
	return errorf("%s: %s", what, diffLines(want, got))
}

func checkHistory(c detCase) Out {
	if !c.ok() {
		return Out{}
	}
	out := Out{Sample: c.sample()}
	base, fails := c.baseline()
	out.NonTrivial = len(c.Order) > 3 && fails < len(c.Docs)
	if fails > 0 {
		out.Labels = append(out.Labels, "with failing documents")
	}
	// one parser for all of them
	p := helium.NewParser()
	type kept struct {
		i   int
		doc *helium.Document
		buf []byte
		all []byte
	}
	var docs []kept
	for step, i := range c.Order {
		// the input sits in the middle of a larger buffer
		src := c.Docs[i]
		all := append(append([]byte("<before/>"), src...), "<after/>"...)
		buf := all[9 : 9+len(src)]
		got, doc := detRun(p, buf, c.Modes[i])
		if got != base[i] {
			out.Err = differs(fmt.Sprintf("step %d, document %d, parsed with a parser that was used before", step, i), base[i], got)
			return out
		}
		if !bytes.Equal(buf, src) || string(all[:9]) != "<before/>" || string(all[9+len(src):]) != "<after/>" {
			out.Err = errorf("step %d: the input has been modified: %s", step, show(all))
			return out
		}
		if doc != nil && c.Modes[i] < 2 {
			docs = append(docs, kept{i, doc, buf, all})
		}
	}
	desc := make([]string, len(docs))
	for k, d := range docs {
		desc[k] = describe(d.doc)
		if !strings.HasSuffix(base[d.i], desc[k]) {
			out.Err = differs(fmt.Sprintf("document %d after later parses", d.i), base[d.i], desc[k])
			return out
		}
	}
	for _, d := range docs {
		for j := range d.all {
			d.all[j] = "<x&'\xff]"[j%6]
		}
	}
	for k, d := range docs {
		if s := describe(d.doc); s != desc[k] {
			out.Err = differs(fmt.Sprintf("document %d after the input buffers were overwritten", d.i), desc[k], s)
			return out
		}
	}
	// no node belongs to two documents
	owner := map[helium.Node]int{}
	for k, d := range docs {
		var bad error
		helium.Walk(d.doc, func(n helium.Node) error {
			if o, ok := owner[n]; ok && o != k {
				bad = errorf("a node (%s %q) is in two documents", n.Type(), n.Name())
			}
			owner[n] = k
			return nil
		})
		if bad != nil {
			out.Err = bad
			return out
		}
	}
	// changing one leaves the others, and later parses, alone
	if len(docs) > 1 {
		out.Labels = append(out.Labels, "changed one of several")
		v := len(c.Order) % len(docs)
		spoil(docs[v].doc)
		for k, d := range docs {
			if k == v {
				continue
			}
			if s := describe(d.doc); s != desc[k] {
				out.Err = differs(fmt.Sprintf("document %d after another document was changed", d.i), desc[k], s)
				return out
			}
		}
		i := docs[v].i
		if got, _ := detRun(p, append([]byte(nil), c.Docs[i]...), c.Modes[i]); got != base[i] {
			out.Err = differs(fmt.Sprintf("document %d parsed again after its first tree was changed", i), base[i], got)
		}
	}
	return out
}

func checkConcurrent(c detCase) Out {
	if !c.ok() || c.Par < 1 {
		return Out{}
	}
	out := Out{Sample: c.sample()}
	base, fails := c.baseline()
	out.NonTrivial = c.Par > 2 && fails < len(c.Docs)
	shared := make([][]byte, len(c.Docs))
	for i, d := range c.Docs {
		shared[i] = append([]byte(nil), d...)
	}
	one := helium.NewParser() // used by all, for trees
	errs := make([]error, c.Par)
	start := make(chan bool)
	var wg sync.WaitGroup
	for g := 0; g < c.Par; g++ {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errs[g] = errorf("panic: %v", r)
				}
			}()
			<-start
			own := helium.NewParser()
			for k := range c.Order {
				i := c.Order[(k+g)%len(c.Order)]
				var got string
				if c.Modes[i] == 0 && g%2 == 1 {
					doc, err := one.Parse(shared[i])
					if err != nil {
						got = fmt.Sprintf("error: %v\n", err)
					} else {
						got = describe(doc)
					}
				} else {
					got, _ = detRun(own, shared[i], c.Modes[i])
				}
				if got != base[i] {
					errs[g] = differs(fmt.Sprintf("document %d, parsed while others were", i), base[i], got)
					return
				}
				if (k+g)%3 == 0 {
					runtime.Gosched()
				}
			}
		}(g)
	}
	close(start)
	wg.Wait()
	for _, err := range errs {
		if err != nil {
			out.Err = err
			return out
		}
	}
	for i := range shared {
		if !bytes.Equal(shared[i], c.Docs[i]) {
			out.Err = errorf("the input has been modified: %s", show(shared[i]))
		}
	}
	return out
}

// repeatCase is parsed again and again
func checkRepeat(c srcCase) Out {
	out := Out{Sample: string(c.Src)}
	first := [3]string{}
	for i := 0; i < 6; i++ {
		for mode := range first {
			s, doc := detRun(helium.NewParser(), c.Src, mode)
			if i == 0 {
				first[mode] = s
				continue
			}
			if s != first[mode] {
				out.Err = differs(fmt.Sprintf("parse number %d", i+1), first[mode], s)
				return out
			}
			if doc != nil && mode < 2 {
				if d := describe(doc); !strings.HasSuffix(s, d) {
					out.Err = differs("described twice", s, d)
					return out
				}
			}
		}
	}
	out.NonTrivial = len(first[0]) > 200
	if strings.HasPrefix(first[0], "error") {
		out.Labels = append(out.Labels, "rejected")
		out.NonTrivial = len(c.Src) > 60
	}
	return out
}

// RunOne parses one document in a process of its own
func RunOne(in io.Reader, w io.Writer) {
	var c oneDoc
	if err := json.NewDecoder(in).Decode(&c); err != nil {
		panic(err)
	}
	s, _ := detRun(helium.NewParser(), c.Src, c.Mode)
	io.WriteString(w, s)
}

type oneDoc struct {
	Src  []byte
	Mode int
}

func checkFresh(c detCase) Out {
	if !c.ok() || len(c.Order) == 0 {
		return Out{}
	}
	self, err := os.Executable()
	if err != nil {
		return Out{Labels: []string{"no executable"}}
	}
	out := Out{Sample: c.sample(), NonTrivial: len(c.Order) > 3}
	p := helium.NewParser()
	last, got := 0, ""
	for _, i := range c.Order {
		var doc *helium.Document
		if got, doc = detRun(p, append([]byte(nil), c.Docs[i]...), c.Modes[i]); doc != nil && i%2 == 0 {
			spoil(doc)
		}
		last = i
	}
	in, _ := json.Marshal(oneDoc{c.Docs[last], c.Modes[last]})
	cmd := exec.Command(self, "one")
	cmd.Stdin = bytes.NewReader(in)
	var o, e bytes.Buffer
	cmd.Stdout, cmd.Stderr = &o, &e
	if err := cmd.Run(); err != nil {
		if strings.Contains(e.String(), "panic: ") {
			out.Err = errorf("a process of its own: %v\n%s", err, cut(e.String(), 1500))
			return out
		}
		return Out{Labels: []string{"no second process"}}
	}
	if o.String() != got {
		out.Err = differs(fmt.Sprintf("document %d, parsed in a process of its own and after others", last), o.String(), got)
	}
	return out
}

func init() {
	prop("P15", "histories: more than 3 parses, not all failing; concurrent: at least 3 goroutines; repeat: more than a trivial document")
	reg("P15", "repeat", 10000, 400000, func(t *rapid.T) srcCase { return srcCase{genDetDoc(t)} }, checkRepeat)
	reg("P15", "history", 10000, 400000, genDetCase, checkHistory)
	reg("P15", "fresh", 600, 20000, genDetCase, checkFresh)
	reg("P15", "concurrent", 5000, 200000, genDetCase, checkConcurrent).Race = true
}
