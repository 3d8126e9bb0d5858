package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// Chains of entities, each of which refers to the next: as deep as the parser
// has to follow them (it gives up at 40).

type chainCase struct {
	Pre, Post []string
	Wrap      []bool // with an element around the reference
	Use       string
	Back      bool // the last one is declared first
}

var chainText = map[string]string{"": "", "x": "x", "é ": "é ", "&amp;": "&", "&lt;b": "<b", "&#38;#65;": "A", "]]": "]]", "&#60;i/>": ""}

func genChain(t *rapid.T, pe bool) chainCase {
	c := chainCase{Use: pick(t, []string{"content", "attribute", "default", "element"}), Back: rb(t)}
	if pe {
		c.Use = "parameter"
	}
	pieces := []string{"", "x", "é ", "&amp;", "&lt;b", "&#38;#65;", "]]"}
	if c.Use == "content" || c.Use == "element" {
		pieces = append(pieces, "&#60;i/>")
	}
	for i := ri(t, 1, 38); i > 0; i-- {
		c.Pre = append(c.Pre, pick(t, pieces))
		c.Post = append(c.Post, pick(t, pieces))
		c.Wrap = append(c.Wrap, c.Use == "content" && chance(t, 1, 5))
	}
	return c
}

func (c *chainCase) source() (src []byte, text string) {
	var l []string
	n := len(c.Pre)
	post := ""
	for i := 0; i < n; i++ {
		next := fmt.Sprintf("&%s;", entName(i+1))
		decl := "<!ENTITY "
		if c.Use == "parameter" {
			next = "&#37;" + next[1:]
			decl = "<!ENTITY % "
		}
		if i == n-1 {
			next = "end"
		}
		if c.Wrap[i] {
			next = "<w>" + next + "</w>"
		}
		l = append(l, fmt.Sprintf("%s%s \"%s%s%s\">", decl, entName(i), c.Pre[i], next, c.Post[i]))
		text += chainText[c.Pre[i]]
		post = chainText[c.Post[i]] + post
	}
	text += "end" + post
	if c.Back {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			l[i], l[j] = l[j], l[i]
		}
	}
	ref := "&" + entName(0) + ";"
	body := ""
	switch c.Use {
	case "attribute":
		body = "<r a='" + ref + "'/>"
	case "default":
		// used by a default value, it has to be declared before
		l = append(l, "<!ATTLIST r a CDATA '"+ref+"'>")
		body = "<r/>"
	case "element":
		body = "<r><a/><b x=''>" + ref + "</b></r>"
	case "parameter":
		l = append(l, "<!ENTITY z '%"+entName(0)+";'>")
		body = "<r>&z;</r>"
	default:
		body = "<r>" + ref + "</r>"
	}
	return []byte("<!DOCTYPE r [" + strings.Join(l, "") + "]>" + body), text
}

func checkChain(c chainCase) Out {
	src, want := c.source()
	out := Out{NonTrivial: len(c.Pre) > 5, Labels: []string{c.Use, fmt.Sprintf("depth %d and more", len(c.Pre)/10*10)}, Sample: string(src)}
	for _, fwd := range []bool{true, false} {
		r := newRecorder(fwd)
		if _, err := parseRec(src, r); err != nil {
			return failf("%d entities, rejected: %v\ndocument: %s", len(c.Pre), err, show(src))
		}
		got := ""
		for _, e := range r.evs {
			switch {
			case e.isText():
				got += e.Data
			case e.K == "start" && e.Name == "r" && len(e.Attrs) > 0:
				v, err := expandValue(e.Attrs[0].Value, r.ents)
				if err != nil {
					return failf("%v\ndocument: %s", err, show(src))
				}
				got += v
			}
		}
		if got != want {
			return failf("%d entities (passed on: %v) give\n%q\nwant\n%q\ndocument: %s", len(c.Pre), fwd, got, want, show(src))
		}
	}
	return out
}

func init() {
	reg("P11", "chains", 4000, 200000, func(t *rapid.T) chainCase { return genChain(t, false) }, checkChain)
	reg("P23", "chains", 2000, 100000, func(t *rapid.T) chainCase { return genChain(t, true) }, checkChain)
}
