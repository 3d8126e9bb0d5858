package props

import (
	"bytes"
	"regexp"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P04: serialising a parsed document loses nothing and is stable.

// saxCanon is what a handler is told about a document, with character data
// merged and attribute values expanded. Defaulted attributes are kept.
func saxCanon(src []byte, skipDecls bool) (string, error) {
	r := newRecorder(true)
	if _, err := parseRec(src, r); err != nil {
		return "", err
	}
	if r.bad != nil {
		return "", r.bad
	}
	return canonEvents(r, skipDecls)
}

func canonEvents(r *recorder, skipDecls bool) (string, error) {
	l := mergeEvText(r.evs)
	var out []Ev
	var decls []*Decl
	for _, e := range l {
		switch e.K {
		case "locator", "extsubset":
			continue
		case "decl":
			d := *e.Decl
			if d.K == "att" {
				v, err := expandValue(d.Default, r.ents)
				if err != nil {
					return "", err
				}
				d.Default = v
			}
			decls = append(decls, &d)
			continue
		case "start":
			as := append([]EvAttr(nil), e.Attrs...)
			for i := range as {
				v, err := expandValue(as[i].Value, r.ents)
				if err != nil {
					return "", err
				}
				as[i].Value = v
			}
			e.Attrs = as
		}
		out = append(out, e)
	}
	var b strings.Builder
	if !skipDecls {
		for _, d := range bound(decls) {
			b.WriteString("decl " + d.String() + "\n")
		}
	}
	return b.String() + evLines(out), nil
}

var peRefLike = regexp.MustCompile(`%[^%;\s]+;`)

// hasPERef tells whether the internal subset refers to a parameter entity.
// The parser does not include them and serialising drops the reference
// (recorded as a finding).
func hasPERef(src []byte) bool {
	r := refParse(src)
	// (what the reference parser does not know, it has not read to the end)
	return r.Feat["peref"] || r.V == vUnsure && peRefLike.Match(src)
}

// roundTrip serialises what src parses to and compares. want is the model,
// if it is known.
func roundTrip(src []byte, want *Doc) (s1 string, accepted bool, err error) {
	doc, perr := helium.Parse(src)
	if perr != nil {
		if want != nil {
			return "", false, errorf("well-formed document rejected: %v\ndocument: %s", perr, show(src))
		}
		return "", false, nil
	}
	s1, derr := doc.XMLString()
	if derr != nil {
		return "", true, errorf("serialising: %v\ndocument: %s", derr, show(src))
	}
	ctx := func(f string, a ...interface{}) error {
		return errorf(f+"\ndocument:   %s\nserialised: %s", append(a, show(src), show([]byte(s1)))...)
	}
	if s, derr := doc.XMLString(); derr != nil || s != s1 {
		return s1, true, ctx("serialising twice gives something else: %q, %v", s, derr)
	}
	var buf bytes.Buffer
	if derr := (&helium.Dumper{}).DumpDoc(&buf, doc); derr != nil || buf.String() != s1 {
		return s1, true, ctx("DumpDoc gives something else: %q, %v", buf.String(), derr)
	}
	doc2, perr := helium.Parse([]byte(s1))
	if perr != nil {
		return s1, true, ctx("the serialised document is rejected: %v", perr)
	}
	var m *Doc
	if want != nil {
		m = want
	} else {
		if m, err = fromDOM(doc, true); err != nil {
			return s1, true, ctx("%v", err)
		}
	}
	m2, err := fromDOM(doc2, true)
	if err != nil {
		return s1, true, ctx("second document: %v", err)
	}
	a, b := m.canon(canonOpt{dumped: true}), m2.canon(canonOpt{dumped: true})
	if a != b {
		return s1, true, ctx("the document read back differs: %s", diffLines(a, b))
	}
	s2, derr := doc2.XMLString()
	if derr != nil || s2 != s1 {
		return s1, true, ctx("not stable: serialised again it is %q, %v", s2, derr)
	}
	// a handler sees the same document
	e1, err1 := saxCanon(src, false)
	e2, err2 := saxCanon([]byte(s1), false)
	if err1 != nil || err2 != nil {
		return s1, true, ctx("parsing with a handler: %v, %v", err1, err2)
	}
	if e1 != e2 {
		return s1, true, ctx("the document read back has other events: %s", diffLines(e1, e2))
	}
	// the reference parser agrees
	if r := refParse([]byte(s1)); r.V == vBad {
		return s1, true, ctx("the serialised document is not well-formed: %s", r.Msg)
	} else if r.V == vOK {
		if m.DTD == nil && r.Doc.DTD == nil {
			r.Doc.Before, r.Doc.Mid = append(r.Doc.Before, r.Doc.Mid...), nil
			mm := *m
			mm.Before, mm.Mid = append(append([]*N(nil), mm.Before...), mm.Mid...), nil
			a = mm.canon(canonOpt{dumped: true})
		}
		if b := r.Doc.canon(canonOpt{dumped: true}); a != b {
			return s1, true, ctx("the serialised document says something else: %s", diffLines(a, b))
		}
	}
	// the root on its own
	if doc.IntSubset() == nil && (m.Decl == nil || m.Decl.Encoding == "") {
		frag, derr := dumpNode(doc.LastChild())
		_ = frag
		if derr != nil {
			return s1, true, ctx("dumping the last child: %v", derr)
		}
		for c := doc.FirstChild(); c != nil; c = c.NextSibling() {
			if c.Type() != helium.ElementNode {
				continue
			}
			frag, derr := dumpNode(c)
			if derr != nil {
				return s1, true, ctx("dumping the root: %v", derr)
			}
			d3, perr := helium.Parse([]byte(frag))
			if perr != nil {
				return s1, true, ctx("the serialised root is rejected: %v: %s", perr, show([]byte(frag)))
			}
			m3, err := fromDOM(d3, false)
			if err != nil {
				return s1, true, ctx("%v", err)
			}
			x, y := (&Doc{Root: m.Root}).canon(canonOpt{noDecl: true}), m3.canon(canonOpt{noDecl: true})
			if x != y {
				return s1, true, ctx("the root read back differs: %s", diffLines(x, y))
			}
		}
	}
	return s1, true, nil
}

func init() {
	prop("P04", "the serialisation is not the input and has at least 60 bytes and one reference, attribute or declaration")

	nt := func(src []byte, s1 string) bool {
		return s1 != string(src) && len(s1) >= 60 && (strings.ContainsAny(s1, "&=") || strings.Contains(s1, "<!"))
	}
	reg("P04", "generated", 30000, 500000,
		func(t *rapid.T) docCase { return genDocCase(t, GenOpt{}) },
		func(c docCase) Out {
			l, _ := docLabels(c.Doc, c.Src)
			s1, _, err := roundTrip(c.Src, c.Doc)
			return Out{Err: err, NonTrivial: nt(c.Src, s1), Labels: l, Sample: string(c.Src) + "\n   gives\n" + s1}
		})
	mutated := func(c srcCase) Out {
		out := Out{Sample: string(c.Src)}
		if hasPERef(c.Src) {
			out.Labels = []string{"skipped: parameter entity reference"}
			return out
		}
		s1, ok, err := roundTrip(c.Src, nil)
		out.Err = err
		if !ok {
			out.Labels = []string{"rejected"}
			return out
		}
		out.Labels = []string{"accepted"}
		out.NonTrivial = nt(c.Src, s1)
		return out
	}
	reg("P04", "mutated", 50000, 900000, func(t *rapid.T) srcCase { return srcCase{genSource(t)} }, mutated)
	reg("P04", "various", 6000, 300000, func(t *rapid.T) srcCase { return srcCase{genVarious(t)} }, mutated)
}
