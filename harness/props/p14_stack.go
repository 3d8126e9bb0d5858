//go:build stacks

package props

import (
	"fmt"

	"github.com/lestrrat-go/helium/internal/stack"
	"github.com/lestrrat-go/helium/internal/stack/nsstack"
)

type simpleAdapter struct{ s stack.SimpleStack }

func (a *simpleAdapter) push(key string, v int) bool { a.s.Push(v); return true }
func (a *simpleAdapter) pop(n int) {
	if n < 0 {
		a.s.Pop()
		return
	}
	a.s.Pop(n)
}
func (a *simpleAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		r = append(r, x.(int))
	}
	return r
}
func (a *simpleAdapter) size() int               { return a.s.Len() }
func (a *simpleAdapter) look(string) (int, bool) { return 0, false }
func (a *simpleAdapter) keyed() bool             { return false }
func (a *simpleAdapter) unique() bool            { return false }

type uniqueItem struct {
	key string
	v   int
}

func (i uniqueItem) Key() string { return i.key }

type uniqueAdapter struct{ s stack.UniqueStack }

func (a *uniqueAdapter) push(key string, v int) bool { return a.s.Push(uniqueItem{key, v}) == nil }
func (a *uniqueAdapter) pop(n int) {
	if n < 0 {
		a.s.Pop()
		return
	}
	a.s.Pop(n)
}
func (a *uniqueAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		r = append(r, x.(uniqueItem).v)
	}
	return r
}
func (a *uniqueAdapter) size() int { return a.s.Len() }
func (a *uniqueAdapter) look(key string) (int, bool) {
	i, ok := a.s.Lookup(key).(uniqueItem)
	return i.v, ok
}
func (a *uniqueAdapter) keyed() bool  { return true }
func (a *uniqueAdapter) unique() bool { return true }

type nsPkgAdapter struct{ s nsstack.Stack }

func nsURI(v int) string { return fmt.Sprintf("http://u/%d", v) }

func nsNum(s string) (int, bool) {
	v := 0
	if _, err := fmt.Sscanf(s, "http://u/%d", &v); err != nil {
		return 0, false
	}
	return v, true
}

func (a *nsPkgAdapter) push(key string, v int) bool { a.s.Push(key, nsURI(v)); return true }
func (a *nsPkgAdapter) pop(n int) {
	if n < 0 {
		a.s.Pop()
		return
	}
	a.s.Pop(n)
}
func (a *nsPkgAdapter) peek(n int) []int {
	var r []int
	for _, x := range a.s.Peek(n) {
		v, _ := nsNum(x.(interface{ URI() string }).URI())
		r = append(r, v)
	}
	return r
}
func (a *nsPkgAdapter) size() int                   { return a.s.Len() }
func (a *nsPkgAdapter) look(key string) (int, bool) { return nsNum(a.s.Lookup(key)) }
func (a *nsPkgAdapter) keyed() bool                 { return true }
func (a *nsPkgAdapter) unique() bool                { return false }

func checkInternalStack(c stackCase) Out {
	var s anyStack
	switch c.Kind {
	case "simple":
		s = &simpleAdapter{}
	case "unique":
		s = &uniqueAdapter{}
	default:
		s = &nsPkgAdapter{s: nsstack.New()}
	}
	out := checkStack(s, c.Ops)
	out.Labels = append(out.Labels, c.Kind)
	out.Sample = fmt.Sprint(c.Kind, ": ", c.Ops)
	return out
}

func init() {
	reg("P14", "stacks", 60000, 6000000, genStackCase("simple", "unique", "namespaces"), checkInternalStack)
}
