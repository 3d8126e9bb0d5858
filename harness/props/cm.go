package props

import (
	"fmt"
	"sort"
	"strings"
)

// The language of a content model: two models are the same if they allow the
// same sequences of children, however they are written. lang gives the
// minimal deterministic automaton, with canonically numbered states.

type glushkov struct {
	sym    []string       // symbol of each position
	follow []map[int]bool // positions that may come next
}

type cmPart struct {
	null        bool
	first, last map[int]bool
}

func union(a, b map[int]bool) map[int]bool {
	r := map[int]bool{}
	for k := range a {
		r[k] = true
	}
	for k := range b {
		r[k] = true
	}
	return r
}

func (g *glushkov) build(c *CM) cmPart {
	var r cmPart
	switch c.Op {
	case "name", "pcdata":
		name := c.Name
		if c.Op == "pcdata" {
			name = "#PCDATA"
		}
		i := len(g.sym)
		g.sym = append(g.sym, name)
		g.follow = append(g.follow, map[int]bool{})
		r = cmPart{false, map[int]bool{i: true}, map[int]bool{i: true}}
	case "seq":
		for n, k := range c.Kids {
			x := g.build(k)
			if n == 0 {
				r = x
				continue
			}
			for l := range r.last {
				g.follow[l] = union(g.follow[l], x.first)
			}
			if r.null {
				r.first = union(r.first, x.first)
			}
			if x.null {
				r.last = union(r.last, x.last)
			} else {
				r.last = x.last
			}
			r.null = r.null && x.null
		}
	case "or":
		for n, k := range c.Kids {
			x := g.build(k)
			if n == 0 {
				r = x
				continue
			}
			r = cmPart{r.null || x.null, union(r.first, x.first), union(r.last, x.last)}
		}
	}
	if c.Occ == "*" || c.Occ == "+" {
		for l := range r.last {
			g.follow[l] = union(g.follow[l], r.first)
		}
	}
	if c.Occ == "*" || c.Occ == "?" {
		r.null = true
	}
	return r
}

func setKey(m map[int]bool) string {
	l := make([]int, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Ints(l)
	return fmt.Sprint(l)
}

const maxStates = 400

// lang describes the language of the model
func (c *CM) lang() string {
	if c == nil {
		return "-"
	}
	if c.leaves() > 120 {
		return c.coarse()
	}
	g := &glushkov{}
	top := g.build(c)
	syms := map[string]bool{}
	for _, s := range g.sym {
		syms[s] = true
	}
	alpha := sortedKeys(syms)
	// subsets of positions: what has just been read. State 0 is the start.
	type state struct {
		set    map[int]bool
		accept bool
		next   map[string]int
	}
	states := []*state{{accept: top.null, next: map[string]int{}}}
	index := map[string]int{}
	for i := 0; i < len(states); i++ {
		if i > maxStates {
			return c.coarse()
		}
		var from map[int]bool
		if i == 0 {
			from = top.first
		} else {
			from = map[int]bool{}
			for p := range states[i].set {
				for q := range g.follow[p] {
					from[q] = true
				}
			}
		}
		by := map[string]map[int]bool{}
		for p := range from {
			s := g.sym[p]
			if by[s] == nil {
				by[s] = map[int]bool{}
			}
			by[s][p] = true
		}
		for s, set := range by {
			k := setKey(set)
			j, ok := index[k]
			if !ok {
				j = len(states)
				index[k] = j
				acc := false
				for p := range set {
					acc = acc || top.last[p]
				}
				states = append(states, &state{set: set, accept: acc, next: map[string]int{}})
			}
			states[i].next[s] = j
		}
	}
	// minimise (every state can accept, so there is no dead state but the
	// missing one)
	class := make([]int, len(states))
	for i, s := range states {
		if s.accept {
			class[i] = 1
		}
	}
	n := 0
	for {
		keys := map[string]int{}
		nc := make([]int, len(states))
		for i, s := range states {
			var b strings.Builder
			fmt.Fprintf(&b, "%d", class[i])
			for _, a := range alpha {
				if j, ok := s.next[a]; ok {
					fmt.Fprintf(&b, " %s>%d", a, class[j])
				}
			}
			k := b.String()
			if _, ok := keys[k]; !ok {
				keys[k] = len(keys)
			}
			nc[i] = keys[k]
		}
		class = nc
		if len(keys) == n {
			break
		}
		n = len(keys)
	}
	// number them in the order they are reached
	num := map[int]int{class[0]: 0}
	rep := []int{0}
	var b strings.Builder
	for i := 0; i < len(rep); i++ {
		s := states[rep[i]]
		fmt.Fprintf(&b, "%d", i)
		if s.accept {
			b.WriteString("!")
		}
		for _, a := range alpha {
			j, ok := s.next[a]
			if !ok {
				continue
			}
			if _, ok := num[class[j]]; !ok {
				num[class[j]] = len(rep)
				rep = append(rep, j)
			}
			fmt.Fprintf(&b, " %s>%d", a, num[class[j]])
		}
		b.WriteString("; ")
	}
	return b.String()
}

// coarse describes models that are too large for lang: as they are written,
// but for redundant parentheses and occurrences
func (c *CM) coarse() string {
	for s := ""; ; {
		var b strings.Builder
		c = c.simple()
		c.write(&b)
		if b.String() == s {
			return "a large model: " + s
		}
		s = b.String()
	}
}

// simple is the model without them
func (c *CM) simple() *CM {
	if len(c.Kids) == 0 {
		return &CM{Op: c.Op, Name: c.Name, Occ: c.Occ}
	}
	r := &CM{Op: c.Op, Occ: c.Occ}
	repeated := c.Op == "or" && (c.Occ == "*" || c.Occ == "+")
	for _, k := range c.Kids {
		x := k.simple()
		if repeated {
			// how often each of the alternatives may occur does not matter
			if x.Occ == "?" || x.Occ == "*" {
				r.Occ = "*"
			}
			x.Occ = ""
		}
		if x.Op == c.Op && x.Occ == "" && len(x.Kids) > 0 {
			r.Kids = append(r.Kids, x.Kids...)
			continue
		}
		r.Kids = append(r.Kids, x)
	}
	if len(r.Kids) > 1 {
		return r
	}
	x := *r.Kids[0]
	switch {
	case x.Occ == "":
		x.Occ = r.Occ
	case r.Occ != "" && r.Occ != x.Occ:
		x.Occ = "*"
	}
	return &x
}

func (c *CM) write(b *strings.Builder) {
	if len(c.Kids) == 0 {
		if c.Op == "pcdata" {
			b.WriteString("#")
		}
		b.WriteString(c.Name + c.Occ)
		return
	}
	sep := "|"
	if c.Op == "seq" {
		sep = ","
	}
	b.WriteString("(")
	for i, k := range c.Kids {
		if i > 0 {
			b.WriteString(sep)
		}
		k.write(b)
	}
	b.WriteString(")" + c.Occ)
}

// leaves counts the names: that does not change with redundant parentheses
func (c *CM) leaves() int {
	n := 0
	if len(c.Kids) == 0 {
		n = 1
	}
	for _, k := range c.Kids {
		n += k.leaves()
	}
	return n
}

func (c *CM) size() int {
	n := 1
	for _, k := range c.Kids {
		n += k.size()
	}
	return n
}
