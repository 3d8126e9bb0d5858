//go:build wrappers

package props

import (
	"fmt"

	"github.com/lestrrat-go/helium"
)

// the stacks of package helium itself, see overlay/stacks.go

type nsAdapter struct{ s helium.VerifNSStack }

func wrapURI(v int) string { return fmt.Sprintf("http://u/%d", v) }

func wrapNum(s string) (int, bool) {
	v := 0
	if _, err := fmt.Sscanf(s, "http://u/%d", &v); err != nil {
		return 0, false
	}
	return v, true
}

func (a *nsAdapter) push(key string, v int) bool { a.s.Push(key, wrapURI(v)); return true }
func (a *nsAdapter) pop(n int) {
	if n < 0 {
		a.s.Pop()
		return
	}
	a.s.Pop(n)
}
func (a *nsAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		v, _ := wrapNum(x.(interface{ URI() string }).URI())
		r = append(r, v)
	}
	return r
}
func (a *nsAdapter) size() int                   { return a.s.Len() }
func (a *nsAdapter) look(key string) (int, bool) { return wrapNum(a.s.Lookup(key)) }
func (a *nsAdapter) keyed() bool                 { return true }
func (a *nsAdapter) unique() bool                { return false }

type nodeAdapter struct {
	s   helium.VerifNodeStack
	doc *helium.Document
	num map[*helium.Element]int
	err error
}

func (a *nodeAdapter) push(key string, v int) bool {
	e, err := a.doc.CreateElement("e")
	if err != nil {
		return false
	}
	a.num[e] = v
	a.s.Push(e)
	return true
}

// pop pops one by one: this is how the parser does it
func (a *nodeAdapter) pop(n int) {
	if n < 0 {
		n = 1
	}
	for ; n > 0; n-- {
		top := a.s.PeekOne()
		if a.s.Pop() != top {
			a.err = errorf("Pop does not give the element PeekOne gives")
		}
	}
}
func (a *nodeAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		r = append(r, a.num[x.(*helium.Element)])
	}
	return r
}
func (a *nodeAdapter) size() int               { return a.s.Len() }
func (a *nodeAdapter) look(string) (int, bool) { return 0, false }
func (a *nodeAdapter) keyed() bool             { return false }
func (a *nodeAdapter) unique() bool            { return false }

type inAdapter struct {
	s   helium.VerifInputStack
	err error
}

func (a *inAdapter) push(key string, v int) bool { a.s.Push(v); return true }
func (a *inAdapter) pop(n int) {
	if n < 0 {
		n = 1
	}
	for ; n > 0; n-- {
		top := a.s.PeekOne()
		if a.s.Pop() != top {
			a.err = errorf("Pop does not give what PeekOne gives")
		}
	}
}
func (a *inAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		r = append(r, x.(int))
	}
	return r
}
func (a *inAdapter) size() int               { return a.s.Len() }
func (a *inAdapter) look(string) (int, bool) { return 0, false }
func (a *inAdapter) keyed() bool             { return false }
func (a *inAdapter) unique() bool            { return false }

func checkWrappedStack(c stackCase) Out {
	var out Out
	switch c.Kind {
	case "parser namespaces":
		out = checkStack(&nsAdapter{s: helium.VerifNewNSStack()}, c.Ops)
	case "parser nodes":
		a := &nodeAdapter{s: helium.VerifNewNodeStack(), doc: helium.NewDocument("1.0", "", helium.StandaloneImplicitNo), num: map[*helium.Element]int{}}
		if out = checkStack(a, c.Ops); out.Err == nil {
			out.Err = a.err
		}
	default:
		a := &inAdapter{s: helium.VerifNewInputStack()}
		if out = checkStack(a, c.Ops); out.Err == nil {
			out.Err = a.err
		}
	}
	out.Labels = append(out.Labels, c.Kind)
	out.Sample = fmt.Sprint(c.Kind, ": ", c.Ops)
	return out
}

func init() {
	reg("P14", "parser stacks", 60000, 6000000, genStackCase("parser namespaces", "parser nodes", "parser inputs"), checkWrappedStack)
}
