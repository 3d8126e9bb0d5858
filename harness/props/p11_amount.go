package props

import (
	"bytes"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"pgregory.net/rapid"
)

// Amounts: entities that stand for a lot of text, but for less than the
// parser says it expands (1,000,000 bytes). Every layer refers to the layer
// below it a number of times; all of them are referred to.

type amountCase struct {
	Leaf   int   // size of the innermost text
	Fan    []int // number of references of each layer to the one below
	Uses   []int // references to the layers, by number
	Times  int   // how often these are repeated
	Markup bool
	Place  string // content, value, both
	Pad    int    // text around the references in the entities
}

const amountMax = 990000

// size of the expansion, counted as what is inserted at each reference
func (c *amountCase) sizes() (sizes, outs []int) {
	sizes, outs = []int{c.leaf()}, []int{c.Leaf}
	for i, f := range c.Fan {
		raw := f*len(fmt.Sprintf("&l%d;", i)) + c.Pad
		sizes = append(sizes, raw+f*sizes[i])
		outs = append(outs, c.Pad+f*outs[i])
	}
	return
}

func (c *amountCase) leaf() int {
	if c.Markup {
		return c.Leaf + len("<b></b>")
	}
	return c.Leaf
}

func genAmount(t *rapid.T) amountCase {
	c := amountCase{Leaf: pick(t, []int{1, 10, 100, 1000, 1000, 10000, 60000}), Pad: ri(t, 0, 3), Place: pick(t, []string{"content", "content", "value", "both"})}
	c.Leaf += ri(t, 0, 9)
	c.Markup = c.Place == "content" && rb(t)
	for k := ri(t, 0, 6); k > 0; k-- {
		c.Fan = append(c.Fan, ri(t, 1, 4))
	}
	for k := ri(t, 1, 3); k > 0; k-- {
		c.Uses = append(c.Uses, len(c.Fan)-uni(t, len(c.Fan)+1))
	}
	sizes, _ := c.sizes()
	one := 0
	for _, u := range c.Uses {
		one += sizes[u]
	}
	if c.Place == "both" {
		one *= 2
	}
	c.Times = amountMax / one
	if c.Times > 4000 { // (many small references are about something else)
		c.Times = 4000
	}
	if rb(t) && c.Times > 1 {
		c.Times = ri(t, 1, c.Times)
	}
	return c
}

func checkAmount(c amountCase) Out {
	sizes, outs := c.sizes()
	var b, use strings.Builder
	b.WriteString("<!DOCTYPE r [\n<!ENTITY l0 '")
	if c.Markup {
		b.WriteString("<b>" + strings.Repeat("x", c.Leaf) + "</b>")
	} else {
		b.WriteString(strings.Repeat("x", c.Leaf))
	}
	b.WriteString("'>\n")
	for i, f := range c.Fan {
		fmt.Fprintf(&b, "<!ENTITY l%d '%s%s'>\n", i+1, strings.Repeat("x", c.Pad), strings.Repeat(fmt.Sprintf("&l%d;", i), f))
	}
	total, text := 0, 0
	for i := 0; i < c.Times; i++ {
		for _, u := range c.Uses {
			fmt.Fprintf(&use, "&l%d;", u)
			total += sizes[u]
			text += outs[u]
		}
	}
	b.WriteString("]>\n<r")
	if c.Place != "content" {
		b.WriteString(" v='" + use.String() + "'")
	}
	b.WriteString(">")
	if c.Place != "value" {
		b.WriteString(use.String())
	}
	b.WriteString("</r>\n")
	if c.Place == "both" {
		total *= 2
	}
	src := []byte(b.String())
	out := Out{NonTrivial: total > 300000, Labels: []string{c.Place}, Sample: fmt.Sprintf("%+v: %d bytes expand to %d", c, len(src), total)}
	if total > amountMax {
		out.Labels = append(out.Labels, "too much")
		return out
	}

	doc, err := helium.Parse(src)
	if err != nil {
		out.Err = errorf("document of %d bytes whose entities expand to %d bytes is rejected: %s", len(src), total, clip(err.Error(), 300))
		return out
	}
	if c.Place != "content" {
		root, _ := doc.FirstChild().NextSibling().(*helium.Element)
		if root == nil || len(root.Attributes()) != 1 {
			out.Err = errorf("the root element or its attribute is missing")
			return out
		}
		v := root.Attributes()[0].Value()
		if len(v) != text || strings.Trim(v, "x") != "" {
			out.Err = errorf("value that is made of entities has %d bytes, want %d", len(v), text)
			return out
		}
	}
	if c.Place != "value" {
		// count the characters that are reported
		n := 0
		var bad []byte
		chars := func(_ sax.Context, data []byte) error {
			n += len(data)
			if s := bytes.Trim(data, "x"); len(s) > 0 && bad == nil {
				bad = append(bad, s...)
			}
			return nil
		}
		p := helium.NewParser()
		tb := &amountHandler{SAX2Handler: helium.NewTreeBuilder(), chars: chars}
		p.SetSAXHandler(tb)
		if _, err := p.Parse(src); err != nil {
			out.Err = errorf("with a handler, the document of %d bytes (expanding to %d) is rejected: %s", len(src), total, clip(err.Error(), 300))
		} else if n != text || bad != nil {
			out.Err = errorf("entities that stand for %d characters are reported as %d, others: %q", text, n, clip(string(bad), 40))
		}
	}
	return out
}

type amountHandler struct {
	sax.SAX2Handler
	chars func(sax.Context, []byte) error
}

func (h *amountHandler) Characters(ctx sax.Context, data []byte) error { return h.chars(ctx, data) }

func init() {
	reg("P11", "amounts", 100, 4000, genAmount, checkAmount)
}
