package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Faults that are far from where the construct began: repeated attributes
// among many, end tags that differ late in a long name or deep in the
// document, and faults at the end of long runs of text, comments and so on.

type farCase struct {
	Kind      string
	Good, Bad string
}

// a name of n characters, none of which is all of its kind
func longName(t *rapid.T, n int) []byte {
	const chars = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_"
	const more = chars + "0123456789-."
	b := make([]byte, n)
	x := uint32(ri(t, 1, 1<<30))
	for i := range b {
		x = x*1664525 + 1013904223
		if i == 0 {
			b[i] = chars[(x>>8)%uint32(len(chars))]
		} else {
			b[i] = more[(x>>8)%uint32(len(more))]
		}
	}
	return b
}

// lengths: small ones, those around powers of two, and any others
func farLen(t *rapid.T, max int) int {
	switch ri(t, 0, 2) {
	case 0:
		return ri(t, 1, 12)
	case 1:
		n := 1<<uint(ri(t, 3, 14)) + ri(t, -2, 2)
		if n <= max {
			return n
		}
	}
	return ri(t, 1, max)
}

var farRuns = []struct{ name, pre, post, run, faults string }{
	{"text", "<r>", "</r>", "x é\n>", "\x01|]]>|&nope;|& |</q>|\uFFFE|\xff|&#0;|<1"},
	{"attribute value", "<r a='", "'/>", "x é\n>", "\x01|<|&nope;|& |\uFFFE|\xff|&#0;"},
	{"comment", "<r><!--", "--></r>", "x -é\n<>&", "\x01|--|\uFFFE|\xff"},
	{"PI", "<r><?p ", "?></r>", "x ?é\n<>&", "\x01|\uFFFE|\xff"},
	{"CDATA section", "<r><![CDATA[", "]]></r>", "x ]é\n<&", "\x01|\uFFFE|\xff|]]>]]>"},
	{"entity value", "<!DOCTYPE r [<!ENTITY e '", "'>]><r/>", "x é\n<>", "\x01|&|% |& |\uFFFE|\xff|&#0;|%nope;"},
	{"default value", "<!DOCTYPE r [<!ATTLIST r a CDATA '", "'>]><r/>", "x é\n>", "\x01|<|&nope;|& |\uFFFE|\xff|&#0;"},
	{"blanks in a tag", "<r a='1'", "/>", " \n\t", "\x01|\u00a0|,|a=''|b"},
	{"blanks after the root", "<r/>", "", " \n\t", "\x01|\u00a0|x|&#32;|<a/>"},
	{"blanks before the root", "<!DOCTYPE r>", "<r/>", " \n\t", "\x01|\u00a0|x|&#32;|<!DOCTYPE r>"},
	{"blanks in the subset", "<!DOCTYPE r [", "]><r/>", " \n\t", "\x01|\u00a0|x|&#32;|<a/>"},
	{"enumeration", "<!DOCTYPE r [<!ATTLIST r a (x", ") #IMPLIED>]><r/>", "1a-.é", "|| |,y|'|\x01|<"},
	{"element name", "<!DOCTYPE r [<!ELEMENT x", " EMPTY>]><r/>", "1a-.é", "\x01|<|'|( |\u00d7"},
}

func genFar(t *rapid.T) farCase {
	var c farCase
	switch ri(t, 0, 3) {
	case 0: // an attribute or namespace declaration is there twice
		c.Kind = "twice"
		n := farLen(t, 600) + 1
		if n > 2000 {
			n = 2000
		}
		pre := pick(t, []string{"", "", "p:", "xmlns:"})
		i := ri(t, 0, n-1)
		if chance(t, 1, 2) { // often one of the last
			i = n - 1 - ri(t, 0, min(n-1, 6))
		}
		j := ri(t, i, n-1)
		if chance(t, 1, 2) {
			j = n - 1
		}
		start := pick(t, []string{"<r xmlns:p='u'", "<r xmlns:p='u'><q/><r", "<r xmlns:p='u'><r"})
		end := strings.Repeat("</r>", strings.Count(start, "<r"))
		mk := func(twice bool) string {
			var b strings.Builder
			b.WriteString(start)
			for k := 0; k < n; k++ {
				fmt.Fprintf(&b, " %sa%d='v'", pre, k)
				if k == j && twice {
					fmt.Fprintf(&b, " %sa%d=\"w\"", pre, i)
				}
				if k == j && !twice {
					fmt.Fprintf(&b, " %sb%d=\"w\"", pre, i)
				}
			}
			return b.String() + ">" + end
		}
		c.Good, c.Bad = mk(false), mk(true)
	case 1: // the names of a start and an end tag differ
		c.Kind = "long name"
		n := farLen(t, 5000)
		name := longName(t, n)
		p := ri(t, 0, n-1)
		if chance(t, 1, 2) {
			p = n - 1
		}
		other := append([]byte(nil), name...)
		switch ri(t, 0, 2) {
		case 0:
			if other[p] == 'x' {
				other[p] = 'y'
			} else {
				other[p] = 'x'
			}
		case 1:
			other = append(other, 'x')
		case 2:
			if n == 1 {
				other = append(other, other[0])
			} else {
				other = other[:n-1]
			}
		}
		in := pick(t, []string{"", "x", "<a/>", "<a></a>"})
		c.Good = "<" + string(name) + ">" + in + "</" + string(name) + ">"
		c.Bad = "<" + string(name) + ">" + in + "</" + string(other) + ">"
	case 2: // deep in the document
		c.Kind = "deep"
		n := farLen(t, 1500)
		if n > 6000 {
			n = 6000
		}
		n += 2
		at := ri(t, 1, n-1)
		k := ri(t, 0, 3)
		mk := func(bad bool) string {
			var b strings.Builder
			for i := 0; i < n; i++ {
				fmt.Fprintf(&b, "<e%d>", i%97)
			}
			for i := n - 1; i >= 0; i-- {
				x, y := i%97, i%97
				if bad {
					switch {
					case k == 0 && i == at: // the end tags of two change places
						x = (i - 1) % 97
					case k == 0 && i == at-1:
						x = at % 97
					case k == 1 && i == at: // one is missing
						continue
					case k == 2 && i == at: // one is there twice
						fmt.Fprintf(&b, "</e%d>", y)
					case k == 3 && i == at:
						b.WriteString("</e>")
						continue
					}
				}
				fmt.Fprintf(&b, "</e%d>", x)
			}
			return b.String()
		}
		c.Good, c.Bad = mk(false), mk(true)
	default:
		r := farRuns[uni(t, len(farRuns))]
		c.Kind = r.name
		max := 40000
		if r.name == "enumeration" || r.name == "element name" {
			max = 20000
		}
		n := farLen(t, max)
		chars := []rune(r.run)
		run := make([]rune, 0, n)
		// mostly runs of one character, with a few others
		main := chars[0]
		if chance(t, 1, 3) {
			main = chars[uni(t, len(chars))]
		}
		double := strings.ContainsRune("-]", main)
		x := uint32(ri(t, 1, 1<<30))
		for len(run) < n {
			x = x*1664525 + 1013904223
			ch := main
			if (x>>8)%16 == 0 {
				ch = chars[(x>>12)%uint32(len(chars))]
			}
			if len(run) > 0 && (double || strings.ContainsRune("-]?", ch)) && (ch == run[len(run)-1]) || ch == '-' && (len(run) == 0 || r.name == "comment" && len(run) == n-1) {
				ch = chars[0]
			}
			if r.name == "enumeration" || r.name == "element name" {
				ch = chars[(x>>12)%uint32(len(chars))]
			}
			if len(run) > 0 && run[len(run)-1] == '?' && ch == '>' {
				ch = chars[0]
			}
			run = append(run, ch)
		}
		if r.name == "CDATA section" || r.name == "PI" {
			run[len(run)-1] = 'x'
		}
		fs := strings.Split(r.faults, "|")
		if r.name == "enumeration" {
			fs = []string{"||", " y", ",y", "'", "\x01", "<"}
		}
		f := fs[uni(t, len(fs))]
		p := len(run)
		if chance(t, 1, 2) {
			p = ri(t, 0, len(run))
		}
		c.Good = r.pre + string(run) + r.post
		c.Bad = r.pre + string(run[:p]) + f + string(run[p:]) + r.post
	}
	return c
}

func init() {
	reg("P02", "far", 4000, 200000, genFar, func(c farCase) Out {
		out := Out{Labels: []string{c.Kind}, Sample: c.Bad}
		if len(out.Sample) > 400 {
			out.Sample = out.Sample[:400] + "..."
		}
		r := refParse([]byte(c.Good))
		if r.V == vOK {
			if err := checkTree([]byte(c.Good), r.Doc, canonOpt{noDTD: true}); err != nil {
				out.Err = err
				return out
			}
			out.Labels = append(out.Labels, "the sound one is accepted")
		}
		b := refParse([]byte(c.Bad))
		if b.V != vBad && c.Kind != "twice" {
			out.Labels = append(out.Labels, c.Kind+": not a fault here")
			return out
		}
		out.NonTrivial = true
		out.Err = mustReject([]byte(c.Bad), c.Kind+": "+b.Msg)
		return out
	})
}
