package props

import (
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
	"pgregory.net/rapid"
)

// P08: the SAX stream is complete, ordered, balanced and stops on error.

// expected computes the events that a document gives rise to, with character
// data merged and attribute values expanded.
type expected struct {
	evs  []Ev
	ents map[string]string
	atts map[string][]*Decl // element -> binding attribute declarations
}

func (x *expected) emit(e Ev) {
	if e.K == "text" {
		if e.Data == "" {
			return
		}
		if n := len(x.evs); n > 0 && x.evs[n-1].K == "text" {
			x.evs[n-1].Data += e.Data
			return
		}
	}
	x.evs = append(x.evs, e)
}

// entity emits the events of the text of an entity (which has no markup)
func (x *expected) entity(text string) {
	for text != "" {
		i := strings.IndexByte(text, '&')
		if i < 0 {
			x.emit(Ev{K: "text", Data: text})
			return
		}
		x.emit(Ev{K: "text", Data: text[:i]})
		text = text[i+1:]
		j := strings.IndexByte(text, ';')
		name := text[:j]
		text = text[j+1:]
		if t, ok := x.ents[name]; ok {
			x.entity(t)
			x.emit(Ev{K: "ref", Name: name})
			continue
		}
		v, err := expandValue("&"+name+";", nil)
		if err != nil {
			panic(err)
		}
		x.emit(Ev{K: "text", Data: v})
	}
}

func (x *expected) node(n *N) {
	switch n.K {
	case KText:
		x.emit(Ev{K: "text", Data: n.Text})
	case KComm:
		x.emit(Ev{K: "comment", Data: n.Text})
	case KPI:
		x.emit(Ev{K: "pi", Name: n.Name, Data: n.Text})
	case KRef:
		x.entity(x.ents[n.Name])
		x.emit(Ev{K: "ref", Name: n.Name})
	case KElem:
		e := Ev{K: "start", Name: n.Name, URI: n.URI, NS: n.NS}
		given := map[string]bool{}
		for _, a := range n.Attrs {
			given[a.Name] = true
			e.Attrs = append(e.Attrs, EvAttr{a.Name, a.Value, false})
		}
		for _, d := range x.atts[n.Name] {
			if !given[d.Att] && (d.Def == "" || d.Def == "#FIXED") {
				e.Attrs = append(e.Attrs, EvAttr{d.Att, d.Default, true})
			}
		}
		x.emit(e)
		for _, k := range n.Kids {
			x.node(k)
		}
		x.emit(Ev{K: "end", Name: n.Name, URI: n.URI})
	}
}

func expEvents(d *Doc) []Ev {
	x := &expected{ents: map[string]string{}, atts: map[string][]*Decl{}}
	x.emit(Ev{K: "startdoc"})
	for _, n := range d.Before {
		x.node(n)
	}
	if d.DTD != nil {
		x.emit(Ev{K: "intsubset", Name: d.DTD.Name})
		for _, c := range d.DTD.Decls {
			switch c.K {
			case "comm":
				x.emit(Ev{K: "comment", Data: c.Text})
			case "pi":
				x.emit(Ev{K: "pi", Name: c.Name, Data: c.Text})
			default:
				x.emit(Ev{K: "decl", Decl: c})
			}
		}
		for _, c := range bound(d.DTD.Decls) {
			switch c.K {
			case "ent":
				x.ents[c.Name] = c.Text
			case "att":
				x.atts[c.Name] = append(x.atts[c.Name], c)
			}
		}
	}
	for _, n := range d.Mid {
		x.node(n)
	}
	x.node(d.Root)
	for _, n := range d.After {
		x.node(n)
	}
	x.emit(Ev{K: "enddoc"})
	return x.evs
}

// gotEvents brings recorded events in the form of expEvents
func gotEvents(r *recorder) ([]Ev, error) {
	if r.bad != nil {
		return nil, r.bad
	}
	var out []Ev
	for i, e := range mergeEvText(r.evs) {
		switch e.K {
		case "locator":
			if i > 0 {
				return nil, errors.New("the locator is not set first")
			}
			continue
		case "extsubset":
			continue
		case "decl":
			d := *e.Decl
			if d.K == "att" {
				v, err := expandValue(d.Default, r.ents)
				if err != nil {
					return nil, err
				}
				d.Default = v
			}
			e.Decl = &d
		case "start":
			as := append([]EvAttr(nil), e.Attrs...)
			for i := range as {
				v, err := expandValue(as[i].Value, r.ents)
				if err != nil {
					return nil, err
				}
				as[i].Value = v
			}
			e.Attrs = as
		}
		out = append(out, e)
	}
	return out, nil
}

func checkStream(src []byte, want *Doc, fwd bool) error {
	r := newRecorder(fwd)
	if !fwd {
		r.ret = sax.ErrHandlerUnspecified
		if len(src)%2 == 0 {
			r.ret = nil
		}
	}
	if _, err := parseRec(src, r); err != nil {
		return errorf("rejected: %v\ndocument: %s", err, show(src))
	}
	got, err := gotEvents(r)
	if err != nil {
		return errorf("%v\ndocument: %s", err, show(src))
	}
	a, b := evLines(expEvents(want)), evLines(got)
	if a != b {
		return errorf("wrong events (passed on: %v): %s\ndocument: %s", fwd, diffLines(a, b), show(src))
	}
	return nil
}

type failCase struct {
	Src []byte
	At  int
	Fwd bool
	Err int // in someErrs
}

// isFailure tells whether err reports cause
func isFailure(err, cause error) bool {
	var inner error // the parser may take the position out of an error
	if pe, ok := cause.(helium.ErrParseError); ok {
		inner = pe.Err
	}
	for i := 0; err != nil && i < 10; i++ {
		if err == cause || inner != nil && err == inner {
			return true
		}
		if pe, ok := err.(helium.ErrParseError); ok {
			err = pe.Err
			continue
		}
		if c, ok := err.(interface{ Cause() error }); ok {
			err = c.Cause()
			continue
		}
		err = errors.Unwrap(err)
	}
	return false
}

func checkFailing(c failCase) Out {
	full := newRecorder(c.Fwd)
	if _, err := parseRec(c.Src, full); err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(c.Src))
	}
	n := full.n
	out := Out{NonTrivial: n >= 6, Sample: fmt.Sprintf("event %d of %d fails: %s", c.At%n, n, show(c.Src))}
	r := newRecorder(c.Fwd)
	r.failAt = c.At % n
	r.fail = someErrs[abs(c.Err)%len(someErrs)].err
	doc, err := parseRec(c.Src, r)
	what := full.evs[r.failAt].String()
	out.Labels = []string{"fails in " + full.evs[r.failAt].K}
	switch {
	case err == nil:
		return failf("the error of event %d (%s) is ignored\ndocument: %s", r.failAt, what, show(c.Src))
	case doc != nil:
		return failf("there is a document although event %d (%s) failed\ndocument: %s", r.failAt, what, show(c.Src))
	case !isFailure(err, r.fail):
		return failf("the error of event %d (%s) is reported as %v\ndocument: %s", r.failAt, what, err, show(c.Src))
	case r.after > 0:
		return failf("%d events after event %d (%s) failed, first %s\ndocument: %s", r.after, r.failAt, what, r.evs[r.failAt+1].String(), show(c.Src))
	}
	a, b := evLines(full.evs[:r.failAt+1]), evLines(r.evs)
	if a != b {
		return failf("other events before the failing one: %s\ndocument: %s", diffLines(a, b), show(c.Src))
	}
	return out
}

// ---- the table of callbacks ----

// table makes a SAX2 that passes those events on that are in set
func table(r *recorder, set map[string]bool) *sax.SAX2 {
	s := sax.New()
	s.GetEntityHandler = r.GetEntity
	s.GetParameterEntityHandler = r.GetParameterEntity
	if set["decl"] {
		s.AttributeDeclHandler = r.AttributeDecl
		s.ElementDeclHandler = r.ElementDecl
		s.EntityDeclHandler = r.EntityDecl
	} else {
		s.EntityDeclHandler = func(ctx sax.Context, name string, typ int, a, b, content string) error {
			n := len(r.evs)
			err := r.EntityDecl(ctx, name, typ, a, b, content)
			r.evs = r.evs[:n]
			return err
		}
	}
	if set["cdata"] {
		s.CDataBlockHandler = r.CDataBlock
	}
	if set["chars"] {
		s.CharactersHandler = r.Characters
	}
	if set["ignorable"] {
		s.IgnorableWhitespaceHandler = r.IgnorableWhitespace
	}
	if set["comment"] {
		s.CommentHandler = r.Comment
	}
	if set["pi"] {
		s.ProcessingInstructionHandler = r.ProcessingInstruction
	}
	if set["startdoc"] {
		s.StartDocumentHandler = r.StartDocument
	}
	if set["enddoc"] {
		s.EndDocumentHandler = r.EndDocument
	}
	if set["start"] {
		s.StartElementNSHandler = r.StartElementNS
	}
	if set["end"] {
		s.EndElementNSHandler = r.EndElementNS
	}
	if set["ref"] {
		s.ReferenceHandler = r.Reference
	}
	if set["intsubset"] {
		s.InternalSubsetHandler = r.InternalSubset
	}
	if set["extsubset"] {
		s.ExternalSubsetHandler = r.ExternalSubset
	}
	if set["locator"] {
		s.SetDocumentLocatorHandler = r.SetDocumentLocator
	}
	return s
}

var tableKinds = []string{"decl", "cdata", "chars", "ignorable", "comment", "pi", "startdoc", "enddoc", "start", "end", "ref", "intsubset", "extsubset", "locator"}

type tableCase struct {
	Src []byte
	Set []string
}

func checkTable(c tableCase) Out {
	out := Out{NonTrivial: len(c.Set) > 0 && len(c.Set) < len(tableKinds), Sample: fmt.Sprintf("%v: %s", c.Set, show(c.Src))}
	full := newRecorder(false)
	if _, err := parseRec(c.Src, full); err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(c.Src))
	}
	set := map[string]bool{}
	for _, k := range c.Set {
		set[k] = true
	}
	r := newRecorder(false)
	if _, err := parseRec(c.Src, table(r, set)); err != nil {
		return failf("rejected with the callbacks %v only: %v\ndocument: %s", c.Set, err, show(c.Src))
	}
	var want []Ev
	for _, e := range full.evs {
		if set[e.K] {
			want = append(want, e)
		}
	}
	a, b := evLines(want), evLines(r.evs)
	if a != b {
		out.Err = errorf("other events with the callbacks %v only: %s\ndocument: %s", c.Set, diffLines(a, b), show(c.Src))
	}
	return out
}

type dispatchCase struct {
	Method int
	Strs   []string
	Ints   []int
	Fail   bool
}

// checkDispatch calls a method of sax.SAX2 with one or no callback set
func checkDispatch(c dispatchCase) Out {
	iface := reflect.TypeOf((*sax.SAX2Handler)(nil)).Elem()
	m := iface.Method(c.Method % iface.NumMethod())
	tab := sax.New()
	v := reflect.ValueOf(tab)
	call := func() (args []reflect.Value, res []reflect.Value) {
		si, ii := 0, 0
		for i := 0; i < m.Type.NumIn(); i++ {
			in := m.Type.In(i)
			a := reflect.New(in).Elem()
			switch {
			case in.Kind() == reflect.String:
				a.SetString(c.Strs[si%len(c.Strs)] + fmt.Sprint(si))
				si++
			case in.Kind() == reflect.Int:
				a.SetInt(int64(c.Ints[ii%len(c.Ints)] + ii))
				ii++
			case in == reflect.TypeOf([]byte(nil)):
				a.SetBytes([]byte(c.Strs[si%len(c.Strs)]))
				si++
			case in.Kind() == reflect.Slice && in.Elem().Kind() == reflect.Interface && m.Type.IsVariadic():
				l := reflect.MakeSlice(in, 0, 2)
				l = reflect.Append(l, reflect.ValueOf(c.Strs[0]), reflect.ValueOf(c.Ints[0]))
				a.Set(l)
			case in.Kind() == reflect.Interface && in.NumMethod() == 0:
				a.Set(reflect.ValueOf(c.Strs))
			}
			args = append(args, a)
		}
		f := v.MethodByName(m.Name)
		if m.Type.IsVariadic() {
			return args, f.CallSlice(args)
		}
		return args, f.Call(args)
	}
	errOf := func(res []reflect.Value) error {
		err, _ := res[len(res)-1].Interface().(error)
		return err
	}
	out := Out{NonTrivial: true, Labels: []string{m.Name}, Sample: fmt.Sprintf("%s %v", m.Name, c)}
	if _, res := call(); errOf(res) != sax.ErrHandlerUnspecified {
		return failf("%s without a callback returns %v", m.Name, errOf(res))
	}
	field := v.Elem().FieldByName(m.Name + "Handler")
	if !field.IsValid() {
		return failf("there is no callback for %s", m.Name)
	}
	var got []reflect.Value
	var fail error
	if c.Fail {
		fail = someErrs[0].err
	}
	calls := 0
	field.Set(reflect.MakeFunc(field.Type(), func(args []reflect.Value) []reflect.Value {
		calls++
		got = args
		var res []reflect.Value
		for i := 0; i < field.Type().NumOut(); i++ {
			r := reflect.New(field.Type().Out(i)).Elem()
			switch {
			case r.Kind() == reflect.Bool:
				r.SetBool(c.Fail)
			case i == field.Type().NumOut()-1 && fail != nil:
				r.Set(reflect.ValueOf(fail))
			}
			res = append(res, r)
		}
		return res
	}))
	args, res := call()
	if calls != 1 {
		return failf("%s calls its callback %d times", m.Name, calls)
	}
	if errOf(res) != fail {
		return failf("%s returns %v instead of %v", m.Name, errOf(res), fail)
	}
	if len(res) == 2 && res[0].Kind() == reflect.Bool && res[0].Bool() != c.Fail {
		return failf("%s returns %v", m.Name, res[0].Bool())
	}
	for i := range args {
		if !reflect.DeepEqual(args[i].Interface(), got[i].Interface()) {
			return failf("argument %d of %s arrives as %v instead of %v", i, m.Name, got[i].Interface(), args[i].Interface())
		}
	}
	return out
}

func init() {
	prop("P08", "stream: at least 8 events; failing: the document has at least 6 events; callbacks: some but not all callbacks are set; dispatch: always")

	reg("P08", "stream", 20000, 1000000,
		func(t *rapid.T) docCase { return genDocCase(t, GenOpt{}) },
		func(c docCase) Out {
			l, _ := docLabels(c.Doc, c.Src)
			out := Out{NonTrivial: len(expEvents(c.Doc)) >= 8, Labels: l, Sample: string(c.Src)}
			for _, fwd := range []bool{true, false} {
				if out.Err = checkStream(c.Src, c.Doc, fwd); out.Err != nil {
					return out
				}
			}
			return out
		})

	mutated := func(c srcCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{r.V.String()}, Sample: string(c.Src)}
		if r.V != vOK {
			return out
		}
		if r.Doc.DTD != nil {
			for _, d := range r.Doc.DTD.Decls {
				if d.K == "ent" && strings.Contains(d.Text, "<") {
					return out // see P11
				}
			}
		}
		out.NonTrivial = len(c.Src) > 30
		out.Err = checkStream(c.Src, r.Doc, len(c.Src)%2 == 0)
		return out
	}
	reg("P08", "mutated", 15000, 700000, func(t *rapid.T) srcCase { return srcCase{genSource(t)} }, mutated)
	reg("P08", "various", 6000, 300000, func(t *rapid.T) srcCase { return srcCase{genVarious(t)} }, mutated)

	reg("P08", "failing", 20000, 900000,
		func(t *rapid.T) failCase {
			c := genDocCase(t, GenOpt{MaxElems: 5, DTD: rb(t)})
			return failCase{Src: c.Src, At: uni(t, 5000), Fwd: rb(t), Err: uni(t, len(someErrs))}
		}, checkFailing)

	reg("P08", "callbacks", 8000, 400000,
		func(t *rapid.T) tableCase {
			c := genDocCase(t, GenOpt{MaxElems: 6})
			var set []string
			for _, k := range tableKinds {
				if rb(t) {
					set = append(set, k)
				}
			}
			return tableCase{c.Src, set}
		}, checkTable)

	reg("P08", "dispatch", 2000, 20000,
		func(t *rapid.T) dispatchCase {
			return dispatchCase{uni(t, 25), []string{genText(t, 0, 6, true), genText(t, 0, 6, true)}, []int{ri(t, 0, 9), ri(t, 0, 9)}, rb(t)}
		}, checkDispatch)
}

// ---- events from the references to entities with markup, and of CDATA sections ----

// genMarkup draws content with references to the first n entities
func genMarkup(t *rapid.T, n, depth int) string {
	var b strings.Builder
	for i := ri(t, 0, 4); i > 0; i-- {
		switch ri(t, 0, 11) {
		case 0, 1:
			b.WriteString(pick(t, []string{"x", "y ", " ", "\n", "a]b", "é", "\t\n", "]]", ">", "1 2"}))
		case 2:
			b.WriteString("<![CDATA[" + pick(t, []string{"", "x", " ", "]", "]]", "]x", "<b>", "&e0;", "\n", "]]>]]&gt;<![CDATA["}) + "]]>")
		case 3:
			b.WriteString("<!--" + pick(t, []string{"", "x", " - ", "&e0;", "<b>"}) + "-->")
		case 4:
			b.WriteString("<?" + pick(t, []string{"x", "y z", "x <b>?", "x &e0;"}) + "?>")
		case 5, 6:
			if n > 0 {
				fmt.Fprintf(&b, "&e%d;", ri(t, 0, n-1))
			}
		case 7:
			b.WriteString(pick(t, []string{"&amp;", "&lt;", "&#65;", "&#x20;", "&#10;", "&#60;", "&#38;", "&gt;", "&#93;"}))
		default:
			if depth == 0 {
				continue
			}
			e := pick(t, []string{"a", "b", "c"})
			b.WriteString("<" + e)
			for i, a := range []string{"x", "y", "z"} {
				if !chance(t, 1, 4) {
					continue
				}
				v := pick(t, []string{"", "1", " 1  2 ", "&lt;", "&#65;", "é"})
				if n > 0 && chance(t, 1, 4) {
					v = fmt.Sprintf("%s&t%d;", v, i%2)
				}
				b.WriteString(" " + a + "=" + pick(t, []string{"'" + v + "'", "'" + v + "' "}))
			}
			if chance(t, 1, 4) {
				b.WriteString("/>")
				continue
			}
			b.WriteString(">" + genMarkup(t, n, depth-1) + "</" + e + ">")
		}
	}
	return b.String()
}

func genMarkupDoc(t *rapid.T) srcCase {
	var b strings.Builder
	n := ri(t, 0, 5)
	b.WriteString("<!DOCTYPE a [")
	decls := []string{"<!ENTITY t0 \"v\">", "<!ENTITY t1 \"&t0;w&amp;\">"}
	for i := 0; i < n; i++ {
		s := genMarkup(t, i, 2)
		if chance(t, 1, 3) {
			s = strings.Replace(s, "<", "&#60;", -1)
		}
		decls = append(decls, fmt.Sprintf("<!ENTITY e%d \"%s\">", i, s))
	}
	for i := ri(t, 0, 4); i > 0; i-- {
		decls = append(decls, pick(t, []string{
			"<!ELEMENT a ANY>", "<!ELEMENT b (#PCDATA|c)*>", "<!ELEMENT b (a|b|c)*>", "<!ELEMENT c EMPTY>",
			"<!ATTLIST a x CDATA 'd'>", "<!ATTLIST b y NMTOKENS ' p  q '>", "<!ATTLIST c x CDATA #IMPLIED z CDATA #FIXED 'f'>", "<!ATTLIST b x NMTOKENS #IMPLIED>", "<!ATTLIST a z CDATA '&t1;'>",
		}))
	}
	for i := range decls { // references may precede what they refer to
		j := i
		if i > 1 && chance(t, 1, 3) {
			j = ri(t, 0, i)
			if strings.Contains(decls[i], "&t1;'>") && j < 2 {
				j = 2
			}
		}
		decls[i], decls[j] = decls[j], decls[i]
	}
	for _, d := range decls {
		b.WriteString(d)
		if chance(t, 1, 8) {
			b.WriteByte('\n')
		}
	}
	b.WriteString("]>")
	pre := genMarkup(t, n, 2)
	b.WriteString("<a>" + pre + genMarkup(t, n, 3) + genMarkup(t, n, 1) + "</a>")
	if chance(t, 1, 8) {
		b.WriteString(pick(t, []string{"\n", "<!--x-->", "<?x y?>\n<!---->"}))
	}
	return srcCase{[]byte(b.String())}
}

// contentEvs gives the events from the start of the root element to the end
// of the document, where white space that may be ignored is character data
// like any other and adjacent character data is kept in one event
func contentEvs(r *recorder) ([]Ev, error) {
	if r.bad != nil {
		return nil, r.bad
	}
	var out []Ev
	started := false
	for _, e := range r.evs {
		started = started || e.K == "start"
		if !started || e.K == "enddoc" {
			continue
		}
		if e.K == "ignorable" {
			e.K = "chars"
		}
		if n := len(out); e.isText() && n > 0 && out[n-1].K == e.K {
			out[n-1].Data += e.Data
			continue
		}
		if e.K == "start" {
			as := append([]EvAttr(nil), e.Attrs...)
			for i := range as {
				v, err := expandValue(as[i].Value, r.ents)
				if err != nil {
					return nil, err
				}
				as[i].Value = v
			}
			e.Attrs = as
		}
		out = append(out, e)
	}
	return out, nil
}

func checkMarkup(c srcCase) Out {
	ref := refParse(c.Src)
	out := Out{Labels: []string{ref.V.String()}, Sample: string(c.Src)}
	if ref.V != vOK {
		return out
	}
	out.NonTrivial = len(ref.Evs) > 4
	r := newRecorder(len(c.Src)%2 == 0)
	if _, err := parseRec(c.Src, r); err != nil {
		return failf("rejected: %v\ndocument: %s", err, show(c.Src))
	}
	got, err := contentEvs(r)
	if err != nil {
		return failf("%v\ndocument: %s", err, show(c.Src))
	}
	if a, b := evLines(ref.Evs), evLines(got); a != b {
		out.Err = errorf("wrong events: %s\ndocument: %s", diffLines(a, b), show(c.Src))
	}
	return out
}

func init() {
	reg("P08", "markup", 25000, 1200000, genMarkupDoc, checkMarkup)
	reg("P08", "sections", 10000, 500000, func(t *rapid.T) srcCase {
		if chance(t, 1, 4) {
			return srcCase{genVarious(t)}
		}
		return srcCase{genSource(t)}
	}, checkMarkup)
}
