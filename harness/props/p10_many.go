package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// P10 with elements that have many attributes: declared in few or many
// declarations, with defaults or without, given or not.

func genManyAtts(t *rapid.T) attCase {
	var b strings.Builder
	feat := map[string]bool{}
	d := &Doc{DTD: &DTD{Name: "r"}}
	b.WriteString("<!DOCTYPE r [")
	elems := []string{"r", "e", "ee", "f"}[:ri(t, 1, 4)]
	most := pick(t, []int{20, 60, 150, 400})
	types := map[string]*Decl{}
	names := map[string][]string{}
	blanks := []string{"", " ", "  ", "\n", "\t"}
	value := func(tok bool, n int) string {
		src := fmt.Sprint("v", n)
		if uni(t, 3) == 0 {
			src = pick(t, blanks) + src + pick(t, blanks) + pick(t, []string{"x", "&#x41;", "&lt;", "x", "é"}) + pick(t, blanks)
		}
		b.WriteString("'" + src + "'")
		v := strings.NewReplacer("\n", " ", "\t", " ", "&#x41;", "A", "&lt;", "<").Replace(src)
		if tok {
			if w := collapse(v); w != v {
				feat["collapsed"] = true
				v = w
			}
		}
		return v
	}
	defaults := ri(t, 0, 4) // how many of 4
	lists := pick(t, []int{1, 1, 2, 5, 50})
	for _, el := range elems {
		n := ri(t, 1, most)
		for i := 0; i < n; i++ {
			names[el] = append(names[el], fmt.Sprint("a", i))
		}
		// the declarations of one element, in any order
		l := names[el]
		if rb(t) {
			l = rapid.Permutation(l).Draw(t, "order")
		}
		if chance(t, 1, 4) {
			// again, for some
			for i := ri(t, 1, n); i > 0; i-- {
				l = append(l[:len(l):len(l)], fmt.Sprint("a", uni(t, n)))
			}
			feat["repeated declaration"] = true
		}
		each := len(l)/lists + 1
		for i, a := range l {
			if i%each == 0 {
				b.WriteString("<!ATTLIST " + el)
			}
			x := &Decl{K: "att", Name: el, Att: a, AttType: pick(t, []string{"CDATA", "CDATA", "NMTOKENS", "NMTOKEN"})}
			b.WriteString(" " + a + " " + x.AttType + " ")
			if uni(t, 4) < defaults {
				if x.Def = pick(t, []string{"", "", "#FIXED"}); x.Def != "" {
					b.WriteString(x.Def + " ")
				}
				x.Default = value(x.AttType != "CDATA", i)
				feat["default"] = true
			} else {
				x.Def = "#IMPLIED"
				b.WriteString(x.Def)
			}
			d.DTD.Decls = append(d.DTD.Decls, x)
			if types[el+" "+a] == nil {
				types[el+" "+a] = x
			}
			if i%each == each-1 || i == len(l)-1 {
				b.WriteString(">")
			}
		}
	}
	b.WriteString("]>")
	elem := func(el string) *N {
		n := &N{K: KElem, Name: el}
		b.WriteString("<" + el)
		given := ri(t, 0, 4) // how many of 4
		l := append(names[el][:len(names[el]):len(names[el])], "u", "w")
		if rb(t) {
			l = rapid.Permutation(l).Draw(t, "order")
		}
		for i, a := range l {
			x := types[el+" "+a]
			if uni(t, 4) >= given {
				if x != nil && x.Def != "#IMPLIED" {
					feat["default used"] = true
				}
				continue
			}
			if x != nil && x.Def != "#IMPLIED" {
				feat["default overridden"] = true
			}
			b.WriteString(" " + a + "=")
			n.Attrs = append(n.Attrs, Attr{a, value(x != nil && x.AttType != "CDATA", i)})
		}
		return n
	}
	d.Root = elem("r")
	b.WriteString(">")
	for i := ri(t, 0, 4); i > 0; i-- {
		k := elem(pick(t, elems))
		b.WriteString("/>")
		d.Root.Kids = append(d.Root.Kids, k)
	}
	b.WriteString("</r>")
	if err := d.Root.resolve(nil); err != nil {
		panic(err)
	}
	return attCase{[]byte(b.String()), d, sortedKeys(feat)}
}

func init() {
	reg("P10", "many", 500, 20000, genManyAtts, checkAtts)
}
