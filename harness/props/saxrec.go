package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"github.com/lestrrat-go/helium/sax"
)

// a SAX handler that records what it is told

// Ev is an event
type Ev struct {
	K     string // kind
	Name  string // element (qualified), target, entity, …
	Data  string
	URI   string
	NS    []NSDecl
	Attrs []EvAttr
	Decl  *Decl
}

// EvAttr is an attribute in an event
type EvAttr struct {
	Name, Value string
	Default     bool
}

func (e Ev) String() string {
	switch e.K {
	case "start":
		var b strings.Builder
		fmt.Fprintf(&b, "start %s {%s}", e.Name, e.URI)
		for _, n := range e.NS {
			fmt.Fprintf(&b, " xmlns:%s=%q", n.Prefix, n.URI)
		}
		for _, a := range e.Attrs {
			d := ""
			if a.Default {
				d = "(default)"
			}
			fmt.Fprintf(&b, " %s%s=%q", a.Name, d, a.Value)
		}
		return b.String()
	case "decl":
		return "decl " + e.Decl.String()
	}
	return fmt.Sprintf("%s %s {%s} %q", e.K, e.Name, e.URI, e.Data)
}

func evLines(l []Ev) string {
	var b strings.Builder
	for _, e := range l {
		b.WriteString(e.String())
		b.WriteByte('\n')
	}
	return b.String()
}

// isText tells whether the event reports character data
func (e Ev) isText() bool { return e.K == "chars" || e.K == "cdata" || e.K == "ignorable" }

// mergeText joins adjacent character data
func mergeEvText(l []Ev) []Ev {
	var out []Ev
	for _, e := range l {
		if e.isText() {
			if e.Data == "" {
				continue
			}
			if n := len(out); n > 0 && out[n-1].K == "text" {
				out[n-1].Data += e.Data
				continue
			}
			e = Ev{K: "text", Data: e.Data}
		}
		out = append(out, e)
	}
	return out
}

// recEnt is an entity of the recorder
type recEnt struct {
	name, text string
	typ        int
	checked    bool
}

func (e *recEnt) Name() string    { return e.name }
func (e *recEnt) SetOrig(string)  {}
func (e *recEnt) EntityType() int { return e.typ }
func (e *recEnt) Content() []byte { return []byte(e.text) }
func (e *recEnt) Checked() bool   { return e.checked }
func (e *recEnt) MarkChecked()    { e.checked = true }

type recorder struct {
	evs    []Ev
	fwd    sax.SAX2Handler // also pass the events on
	ents   map[string]string
	pents  map[string]string
	failAt int // event that fails, -1: none
	fail   error
	ret    error // what the other events return
	n      int
	after  int // events after the one that failed
	bad    error
	limit  int // stop recording after that many events (0: never)
}

func newRecorder(fwd bool) *recorder {
	r := &recorder{failAt: -1, ents: map[string]string{}, pents: map[string]string{}}
	if fwd {
		r.fwd = helium.NewTreeBuilder()
	}
	return r
}

func (r *recorder) ev(e Ev, f func() error) error {
	i := r.n
	r.n++
	if r.failAt >= 0 && i > r.failAt {
		r.after++
	}
	if r.limit == 0 || len(r.evs) < r.limit {
		r.evs = append(r.evs, e)
	}
	if i == r.failAt {
		return r.fail
	}
	if r.fwd != nil {
		return f()
	}
	return r.ret
}

func qn(prefix, local string) string {
	if prefix == "" {
		return local
	}
	return prefix + ":" + local
}

func (r *recorder) AttributeDecl(ctx sax.Context, elem, fullname string, typ, def int, value string, tree sax.Enumeration) error {
	d := &Decl{K: "att", Name: elem, Att: fullname, Default: value}
	switch helium.AttributeType(typ) {
	case helium.AttrCDATA:
		d.AttType = "CDATA"
	case helium.AttrID:
		d.AttType = "ID"
	case helium.AttrIDRef:
		d.AttType = "IDREF"
	case helium.AttrIDRefs:
		d.AttType = "IDREFS"
	case helium.AttrEntity:
		d.AttType = "ENTITY"
	case helium.AttrEntities:
		d.AttType = "ENTITIES"
	case helium.AttrNmtoken:
		d.AttType = "NMTOKEN"
	case helium.AttrNmtokens:
		d.AttType = "NMTOKENS"
	case helium.AttrEnumeration:
		d.AttType = "ENUM"
	case helium.AttrNotation:
		d.AttType = "NOTATION"
	default:
		d.AttType = fmt.Sprintf("?%d", typ)
	}
	switch helium.AttributeDefault(def) {
	case helium.AttrDefaultNone:
	case helium.AttrDefaultRequired:
		d.Def = "#REQUIRED"
	case helium.AttrDefaultImplied:
		d.Def = "#IMPLIED"
	case helium.AttrDefaultFixed:
		d.Def = "#FIXED"
	default:
		d.Def = fmt.Sprintf("?%d", def)
	}
	switch e := tree.(type) {
	case nil:
	case helium.Enumeration:
		d.Enum = append(d.Enum, e...)
	default:
		r.bad = fmt.Errorf("enumeration is a %T", tree)
	}
	return r.ev(Ev{K: "decl", Decl: d}, func() error { return r.fwd.AttributeDecl(ctx, elem, fullname, typ, def, value, tree) })
}

func (r *recorder) CDataBlock(ctx sax.Context, v []byte) error {
	return r.ev(Ev{K: "cdata", Data: string(v)}, func() error { return r.fwd.CDataBlock(ctx, v) })
}

func (r *recorder) Characters(ctx sax.Context, v []byte) error {
	return r.ev(Ev{K: "chars", Data: string(v)}, func() error { return r.fwd.Characters(ctx, v) })
}

func (r *recorder) Comment(ctx sax.Context, v []byte) error {
	return r.ev(Ev{K: "comment", Data: string(v)}, func() error { return r.fwd.Comment(ctx, v) })
}

func (r *recorder) ElementDecl(ctx sax.Context, name string, typ int, content sax.ElementContent) error {
	d := &Decl{K: "elem", Name: name}
	x, err := declOf(name, typ, content)
	if err != nil {
		r.bad = err
	} else {
		d = x
	}
	return r.ev(Ev{K: "decl", Decl: d}, func() error { return r.fwd.ElementDecl(ctx, name, typ, content) })
}

// declOf reads an element declaration as it is reported, by having it
// written
func declOf(name string, typ int, content sax.ElementContent) (*Decl, error) {
	doc := helium.NewDocument("1.0", "", helium.StandaloneNoXMLDecl)
	dtd, err := doc.CreateInternalSubset("x", "", "")
	if err != nil {
		return nil, err
	}
	var c *helium.ElementContent
	if content != nil {
		var ok bool
		if c, ok = content.(*helium.ElementContent); !ok {
			return nil, fmt.Errorf("content model is a %T", content)
		}
	}
	if _, err := dtd.AddElementDecl(name, helium.ElementTypeVal(typ), c); err != nil {
		return nil, err
	}
	n := dtd.FirstChild()
	if n == nil {
		return nil, errors.New("no declaration")
	}
	s, err := dumpNode(n)
	if err != nil {
		return nil, err
	}
	l, err := parseDecl(s)
	if err != nil {
		return nil, err
	}
	return l[0], nil
}

func (r *recorder) EndDocument(ctx sax.Context) error {
	return r.ev(Ev{K: "enddoc"}, func() error { return r.fwd.EndDocument(ctx) })
}

func (r *recorder) EndElementNS(ctx sax.Context, local, prefix, uri string) error {
	return r.ev(Ev{K: "end", Name: qn(prefix, local), URI: uri}, func() error { return r.fwd.EndElementNS(ctx, local, prefix, uri) })
}

func (r *recorder) EntityDecl(ctx sax.Context, name string, typ int, publicID, systemID, content string) error {
	d := &Decl{K: fmt.Sprintf("?ent%d", typ), Name: name, Text: content}
	m := r.ents
	switch helium.EntityType(typ) {
	case helium.InternalGeneralEntity:
		d.K = "ent"
	case helium.InternalParameterEntity:
		d.K = "pent"
		m = r.pents
	}
	if _, ok := m[name]; !ok {
		m[name] = content
	}
	return r.ev(Ev{K: "decl", Decl: d}, func() error { return r.fwd.EntityDecl(ctx, name, typ, publicID, systemID, content) })
}

func (r *recorder) Error(ctx sax.Context, message string, args ...interface{}) error {
	return r.ev(Ev{K: "error", Data: message}, func() error { return r.fwd.Error(ctx, message, args...) })
}

func (r *recorder) ExternalSubset(ctx sax.Context, name, eid, uri string) error {
	return r.ev(Ev{K: "extsubset", Name: name}, func() error { return r.fwd.ExternalSubset(ctx, name, eid, uri) })
}

func (r *recorder) GetEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.fwd != nil {
		return r.fwd.GetEntity(ctx, name)
	}
	if s, ok := r.ents[name]; ok {
		return &recEnt{name: name, text: s, typ: int(helium.InternalGeneralEntity)}, nil
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) GetParameterEntity(ctx sax.Context, name string) (sax.Entity, error) {
	if r.fwd != nil {
		return r.fwd.GetParameterEntity(ctx, name)
	}
	if s, ok := r.pents[name]; ok {
		return &recEnt{name: name, text: s, typ: int(helium.InternalParameterEntity)}, nil
	}
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) HasExternalSubset(ctx sax.Context) (bool, error) {
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) HasInternalSubset(ctx sax.Context) (bool, error) {
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) IgnorableWhitespace(ctx sax.Context, v []byte) error {
	return r.ev(Ev{K: "ignorable", Data: string(v)}, func() error { return r.fwd.IgnorableWhitespace(ctx, v) })
}

func (r *recorder) InternalSubset(ctx sax.Context, name, eid, uri string) error {
	return r.ev(Ev{K: "intsubset", Name: name, Data: eid, URI: uri}, func() error { return r.fwd.InternalSubset(ctx, name, eid, uri) })
}

func (r *recorder) IsStandalone(ctx sax.Context) (bool, error) {
	return false, sax.ErrHandlerUnspecified
}

func (r *recorder) NotationDecl(ctx sax.Context, name, publicID, systemID string) error {
	return r.ev(Ev{K: "notation", Name: name}, func() error { return r.fwd.NotationDecl(ctx, name, publicID, systemID) })
}

func (r *recorder) ProcessingInstruction(ctx sax.Context, target, data string) error {
	return r.ev(Ev{K: "pi", Name: target, Data: data}, func() error { return r.fwd.ProcessingInstruction(ctx, target, data) })
}

func (r *recorder) Reference(ctx sax.Context, name string) error {
	return r.ev(Ev{K: "ref", Name: name}, func() error { return r.fwd.Reference(ctx, name) })
}

func (r *recorder) ResolveEntity(ctx sax.Context, publicID, systemID string) (sax.ParseInput, error) {
	return nil, sax.ErrHandlerUnspecified
}

func (r *recorder) SetDocumentLocator(ctx sax.Context, l sax.DocumentLocator) error {
	return r.ev(Ev{K: "locator"}, func() error { return r.fwd.SetDocumentLocator(ctx, l) })
}

func (r *recorder) StartDocument(ctx sax.Context) error {
	return r.ev(Ev{K: "startdoc"}, func() error { return r.fwd.StartDocument(ctx) })
}

func (r *recorder) StartElementNS(ctx sax.Context, local, prefix, uri string, namespaces []sax.Namespace, attrs []sax.Attribute) error {
	e := Ev{K: "start", Name: qn(prefix, local), URI: uri}
	for _, n := range namespaces {
		e.NS = append(e.NS, NSDecl{n.Prefix(), n.URI()})
	}
	for _, a := range attrs {
		if a.Name() != qn(a.Prefix(), a.LocalName()) {
			r.bad = fmt.Errorf("attribute: Name() is %q, Prefix() %q, LocalName() %q", a.Name(), a.Prefix(), a.LocalName())
		}
		e.Attrs = append(e.Attrs, EvAttr{a.Name(), a.Value(), a.IsDefault()})
	}
	return r.ev(e, func() error { return r.fwd.StartElementNS(ctx, local, prefix, uri, namespaces, attrs) })
}

func (r *recorder) UnparsedEntityDecl(ctx sax.Context, name, publicID, systemID, notation string) error {
	return r.ev(Ev{K: "unparsed", Name: name}, func() error { return r.fwd.UnparsedEntityDecl(ctx, name, publicID, systemID, notation) })
}

// parseRec parses src with a recorder
func parseRec(src []byte, r sax.SAX2Handler) (*helium.Document, error) {
	p := helium.NewParser()
	p.SetSAXHandler(r)
	return p.Parse(src)
}

// expandValue expands the references of an attribute value as the events
// give it
func expandValue(s string, ents map[string]string) (string, error) {
	var b strings.Builder
	err := expandInto(&b, s, ents, 0, false)
	return b.String(), err
}

func expandInto(b *strings.Builder, s string, ents map[string]string, depth int, inEnt bool) error {
	if depth > 100 || b.Len() > 10<<20 {
		return errors.New("expansion too deep or too long")
	}
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if r != '&' {
			if inEnt && isBlank(r) {
				r = ' '
			}
			b.WriteRune(r)
			continue
		}
		j := i + 1
		for j < len(rs) && rs[j] != ';' {
			j++
		}
		if j >= len(rs) {
			return fmt.Errorf("unterminated reference in %q", s)
		}
		name := string(rs[i+1 : j])
		i = j
		if strings.HasPrefix(name, "#") {
			var v rune
			var err error
			if strings.HasPrefix(name, "#x") {
				_, err = fmt.Sscanf(name, "#x%x", &v)
			} else {
				_, err = fmt.Sscanf(name, "#%d", &v)
			}
			if err != nil || !isChar(v) {
				return fmt.Errorf("bad character reference in %q", s)
			}
			b.WriteRune(v)
			continue
		}
		if p, ok := predef[name]; ok {
			b.WriteString(p)
			continue
		}
		t, ok := ents[name]
		if !ok {
			return fmt.Errorf("undeclared entity in %q", s)
		}
		if err := expandInto(b, t, ents, depth+1, true); err != nil {
			return err
		}
	}
	return nil
}

// ProbeSAX shows the events of a document
func ProbeSAX(src []byte) string {
	var out string
	for _, fwd := range []bool{true, false} {
		r := newRecorder(fwd)
		_, err := parseRec(src, r)
		out += fmt.Sprintf("--- forward=%v err=%v bad=%v\n%s", fwd, err, r.bad, evLines(r.evs))
	}
	return out
}
