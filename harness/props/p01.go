package props

import (
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P01: well-formed documents parse to exactly the tree they describe.

type docCase struct {
	Src []byte
	Doc *Doc
}

func genDocCase(t *rapid.T, o GenOpt) docCase {
	d := genDoc(t, o)
	return docCase{Src: spell(t, d), Doc: d}
}

func docLabels(d *Doc, src []byte) (labels []string, nontrivial bool) {
	nodes, depth, kinds := d.count()
	if nodes >= 4 {
		labels = append(labels, "4+ nodes")
	}
	if depth >= 4 {
		labels = append(labels, "depth 4+")
	}
	if d.DTD != nil {
		labels = append(labels, "DOCTYPE")
	}
	s := string(src)
	if strings.Contains(s, "<![CDATA[") {
		labels = append(labels, "CDATA")
	}
	if strings.Contains(s, "&#") {
		labels = append(labels, "charref")
	}
	if strings.Contains(s, "\r") {
		labels = append(labels, "CR")
	}
	if strings.Contains(s, "xmlns") {
		labels = append(labels, "namespaces")
	}
	if kinds >= 3 {
		labels = append(labels, "3+ kinds")
	}
	return labels, nodes >= 4 && kinds >= 2
}

// checkTree parses src and compares with the model
func checkTree(src []byte, want *Doc, o canonOpt) error {
	doc, err := helium.Parse(src)
	if err != nil {
		return errorf("well-formed document rejected: %v\ndocument: %s", err, show(src))
	}
	got, err := fromDOM(doc, !o.noDTD)
	if err != nil {
		return errorf("%v\ndocument: %s", err, show(src))
	}
	if want.DTD == nil {
		// there is no telling them apart
		got.Before = append(got.Before, got.Mid...)
		got.Mid = nil
	}
	w, g := want.canon(o), got.canon(o)
	if w != g {
		return errorf("wrong tree: %s\ndocument: %s", diffLines(w, g), show(src))
	}
	return nil
}

func init() {
	prop("P01", "the document has at least 4 nodes of at least 2 kinds (generated), or was accepted by the reference parser with such a tree (mutated)")

	reg("P01", "generated", 18000, 900000,
		func(t *rapid.T) docCase { return genDocCase(t, GenOpt{}) },
		func(c docCase) Out {
			l, nt := docLabels(c.Doc, c.Src)
			out := Out{NonTrivial: nt, Labels: l, Sample: string(c.Src)}
			out.Err = checkTree(c.Src, c.Doc, canonOpt{noDTD: true})
			return out
		})

	type pairCase struct{ A, B []byte }
	reg("P01", "respelled", 5000, 250000,
		func(t *rapid.T) pairCase {
			d := genDoc(t, GenOpt{})
			return pairCase{spell(t, d), spell(t, d)}
		},
		func(c pairCase) Out {
			out := Out{NonTrivial: string(c.A) != string(c.B) && len(c.A) > 40, Sample: string(c.A) + "\n   versus\n" + string(c.B)}
			var canon [2]string
			for i, src := range [][]byte{c.A, c.B} {
				doc, err := helium.Parse(src)
				if err != nil {
					return failf("well-formed document rejected: %v\ndocument: %s", err, show(src))
				}
				m, err := fromDOM(doc, false)
				if err != nil {
					return failf("%v\ndocument: %s", err, show(src))
				}
				canon[i] = m.canon(canonOpt{noDTD: true})
			}
			if canon[0] != canon[1] {
				out.Err = errorf("two spellings of one document differ: %s\nfirst:  %s\nsecond: %s", diffLines(canon[0], canon[1]), show(c.A), show(c.B))
			}
			return out
		})
}

type srcCase struct{ Src []byte }

func (c *srcCase) input() []byte                  { return c.Src }
func (c *srcCase) withInput(b []byte) interface{} { return &srcCase{b} }

func init() {
	mutated := func(c srcCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{r.V.String()}, Sample: string(c.Src)}
		if r.V != vOK {
			return out
		}
		nodes, _, kinds := r.Doc.count()
		out.NonTrivial = nodes >= 4 && kinds >= 2
		out.Err = checkTree(c.Src, r.Doc, canonOpt{noDTD: true})
		return out
	}
	reg("P01", "mutated", 15000, 700000, func(t *rapid.T) srcCase { return srcCase{genSource(t)} }, mutated)
	reg("P01", "various", 6000, 300000, func(t *rapid.T) srcCase { return srcCase{genVarious(t)} }, mutated)
	// the reference parser is checked against the generator, so that a
	// mistake in it does not go unseen
	reg("P01", "reference", 4000, 50000,
		func(t *rapid.T) docCase { return genDocCase(t, GenOpt{}) },
		func(c docCase) Out {
			r := refParse(c.Src)
			out := Out{Labels: []string{r.V.String()}}
			if r.V == vBad {
				return failf("the reference parser rejects a generated document: %s\n%s", r.Msg, show(c.Src))
			}
			if r.V == vOK {
				if c.Doc.DTD == nil {
					r.Doc.Before = append(r.Doc.Before, r.Doc.Mid...)
					r.Doc.Mid = nil
				}
				w, g := c.Doc.canon(canonOpt{}), r.Doc.canon(canonOpt{})
				if w != g {
					return failf("the reference parser disagrees with the generator: %s\n%s", diffLines(w, g), show(c.Src))
				}
			}
			return out
		})
}
