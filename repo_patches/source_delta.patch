From 6edd67ac25a91bdcf691537bec4c9077ff246495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:51 +0000
Subject: [PATCH 01/30] fix: scope namespace declarations to their element,
 tell '/>' text from an empty-element tag

- xmlns declarations stayed in force after the end tag, could not be
  shadowed, and xmlns="" / the predeclared xml prefix were mishandled
- content starting with "/>" was taken as the end of an empty element,
  and "</a >" was rejected
- attributes not separated by white space were accepted
---
 internal/stack/nsstack/nsstack.go |   3 +-
 parserctx.go                      | 116 +++++++++++++++++-------------
 stack.go                          |   3 +-
 3 files changed, 71 insertions(+), 51 deletions(-)

diff --git a/internal/stack/nsstack/nsstack.go b/internal/stack/nsstack/nsstack.go
index d60a869..c4a122d 100644
--- a/internal/stack/nsstack/nsstack.go
+++ b/internal/stack/nsstack/nsstack.go
@@ -30,7 +30,8 @@ func New() Stack {
 }
 
 func (s *Stack) Push(prefix, uri string) {
-	s.UniqueStack.Push(Item{prefix: prefix, href: uri})
+	// a redeclared prefix shadows the outer declaration
+	s.UniqueStack = append(s.UniqueStack, Item{prefix: prefix, href: uri})
 }
 
 func (s *Stack) Lookup(prefix string) string {
diff --git a/parserctx.go b/parserctx.go
index a11dde6..303fdda 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -140,9 +140,24 @@ func (ctx *parserCtx) popNode() (elem *Element) {
 }
 
 func (ctx *parserCtx) lookupNamespace(prefix string) string {
+	// the xml prefix is bound by definition
+	if prefix == XMLPrefix {
+		return XMLNamespace
+	}
 	return ctx.nsTab.Lookup(prefix)
 }
 
+// hasNSDecl returns true if prefix is declared by one of the n most
+// recent namespace declarations
+func (ctx *parserCtx) hasNSDecl(prefix string, n int) bool {
+	for _, ns := range ctx.nsTab.Peek(n) {
+		if ns.Key() == prefix {
+			return true
+		}
+	}
+	return false
+}
+
 func (ctx *parserCtx) release() error {
 	ctx.sax = nil
 	ctx.userData = nil
@@ -674,28 +689,27 @@ func (ctx *parserCtx) parseElement() error {
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
 	// be />
-	if err := ctx.parseStartTag(); err != nil {
+	empty, err := ctx.parseStartTag()
+	if err != nil {
 		return ctx.error(err)
 	}
 
-	cur := ctx.getCursor()
-	if cur == nil {
-		panic("did not get rune cursor")
-	}
-	if !cur.HasPrefixString("/>") {
+	if !empty {
 		if err := ctx.parseContent(); err != nil {
 			return ctx.error(err)
 		}
 	}
 
-	if err := ctx.parseEndTag(); err != nil {
+	if err := ctx.parseEndTag(empty); err != nil {
 		return ctx.error(err)
 	}
 
 	return nil
 }
 
-func (ctx *parserCtx) parseStartTag() error {
+// parseStartTag returns true if the tag is an empty-element tag, in which
+// case the cursor is left at the terminating "/>"
+func (ctx *parserCtx) parseStartTag() (bool, error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseStartTag")
 		defer g.IRelease("END parseStartTag")
@@ -706,99 +720,90 @@ func (ctx *parserCtx) parseStartTag() error {
 		panic("did not get rune cursor")
 	}
 	if cur.Peek() != '<' {
-		return ctx.error(ErrStartTagRequired)
+		return false, ctx.error(ErrStartTagRequired)
 	}
 	cur.Advance(1)
 
 	local, prefix, err := ctx.parseQName()
 	if local == "" {
-		return ctx.error(fmt.Errorf("local name empty! local = %s, prefix = %s, err = %s", local, prefix, err))
+		return false, ctx.error(fmt.Errorf("local name empty! local = %s, prefix = %s, err = %s", local, prefix, err))
 	}
 	if err != nil {
-		return ctx.error(err)
+		return false, ctx.error(err)
 	}
 
 	elem, err := ctx.doc.CreateElement(local)
 	if err != nil {
-		return ctx.error(err)
+		return false, ctx.error(err)
 	}
 
+	empty := false
 	nbNs := 0
 	attrs := []sax.Attribute{}
 	for ctx.instate != psEOF {
-		ctx.skipBlanks()
+		blanks := ctx.skipBlanks()
 		if cur.Peek() == '>' {
 			cur.Advance(1)
 			break
 		}
 
 		if cur.Peek() == '/' && cur.PeekN(2) == '>' {
+			empty = true
 			break
 		}
+
+		if !blanks {
+			return false, ctx.error(ErrSpaceRequired)
+		}
+
 		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
 		if err != nil {
-			return ctx.error(err)
+			return false, ctx.error(err)
 		}
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
+			if ctx.hasNSDecl("", nbNs) {
+				return false, ctx.error(ErrDuplicateAttribute)
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
-			//    SkipDefaultNS:
-			if cur.Peek() == '>' || cur.HasPrefixString("/>") {
-				continue
-			}
-
-			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
-			}
-			ctx.skipBlanks()
+			continue
 		} else if aprefix == XMLNsPrefix {
-			var u *url.URL // predeclare, so we can use goto SkipNS
-
 			// <elem xmlns:foo="...">
 			if attname == XMLPrefix { // xmlns:xml
 				if attvalue != XMLNamespace {
-					return ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
+					return false, ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
 				}
 				// skip storing namespace definition
-				goto SkipNS
+				continue
 			}
 			if attname == XMLNsPrefix { // xmlns:xmlns="..."
-				return ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
+				return false, ctx.error(errors.New("redefinition of the xmlns prefix forbidden"))
 			}
 
 			if attvalue == "http://www.w3.org/2000/xmlns/" {
-				return ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
+				return false, ctx.error(errors.New("reuse of the xmlns namespace name if forbidden"))
 			}
 
 			if attvalue == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: Empty XML namespace is not allowed", attname))
 			}
 
-			u, err = url.Parse(attvalue)
+			u, err := url.Parse(attvalue)
 			if err != nil {
-				return ctx.error(fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, attvalue))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: '%s' is not a validURI", attname, attvalue))
 			}
 			if ctx.pedantic && u.Scheme == "" {
-				return ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
+				return false, ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.nsTab.Lookup(attname) != "" {
-				return ctx.error(errors.New("duplicate attribute is not allowed"))
+			if ctx.hasNSDecl(attname, nbNs) {
+				return false, ctx.error(ErrDuplicateAttribute)
 			}
 			ctx.pushNS(attname, attvalue)
 			nbNs++
 
-		SkipNS:
-			if cur.Peek() == '>' || cur.HasPrefixString("/>") {
-				continue
-			}
-
-			if !isBlankCh(cur.Peek()) {
-				return ctx.error(ErrSpaceRequired)
-			}
-			ctx.skipBlanks()
 			// ctx.input.base != base || inputNr != ctx.inputNr; goto base_changed
 			continue
 		}
@@ -840,11 +845,18 @@ func (ctx *parserCtx) parseStartTag() error {
 	// via lookupNamespace
 	nsuri := ctx.lookupNamespace(prefix)
 	if prefix != "" && nsuri == "" {
-		return ctx.error(errors.New("namespace '" + prefix + "' not found"))
+		return false, ctx.error(errors.New("namespace '" + prefix + "' not found"))
 	}
 	if nsuri != "" {
 		elem.SetNamespace(prefix, nsuri, true)
 	}
+	// remember the declarations, so that they go out of scope at the end tag
+	if nbNs > 0 {
+		for _, ns := range ctx.nsTab.Peek(nbNs) {
+			item := ns.(nsStackItem)
+			elem.SetNamespace(item.Prefix(), item.URI(), false)
+		}
+	}
 
 	if s := ctx.sax; s != nil {
 		var nslist []sax.Namespace
@@ -859,12 +871,12 @@ func (ctx *parserCtx) parseStartTag() error {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
 		default:
-			return ctx.error(err)
+			return false, ctx.error(err)
 		}
 	}
 	ctx.pushNode(elem)
 
-	return nil
+	return empty, nil
 }
 
 /**
@@ -876,7 +888,7 @@ func (ctx *parserCtx) parseStartTag() error {
  *
  * [NS 9] ETag ::= '</' QName S? '>'
  */
-func (ctx *parserCtx) parseEndTag() error {
+func (ctx *parserCtx) parseEndTag(empty bool) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEndTag")
 		defer g.IRelease("END parseEndTag")
@@ -886,7 +898,11 @@ func (ctx *parserCtx) parseEndTag() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if !cur.ConsumeString("/>") {
+	if empty {
+		if !cur.ConsumeString("/>") {
+			return ctx.error(ErrGtRequired)
+		}
+	} else {
 		if !cur.ConsumeString("</") {
 			return ctx.error(ErrLtSlashRequired)
 		}
@@ -896,6 +912,7 @@ func (ctx *parserCtx) parseEndTag() error {
 			return ctx.error(errors.New("expected end tag '" + e.Name() + "'"))
 		}
 
+		ctx.skipBlanks()
 		if cur.Peek() != '>' {
 			return ctx.error(ErrGtRequired)
 		}
@@ -912,6 +929,7 @@ func (ctx *parserCtx) parseEndTag() error {
 		}
 	}
 	ctx.popNode()
+	ctx.nsTab.Pop(len(e.Namespaces()))
 
 	return nil
 }
diff --git a/stack.go b/stack.go
index 6d57cf8..900e671 100644
--- a/stack.go
+++ b/stack.go
@@ -38,7 +38,8 @@ func newNsStack() nsStack {
 }
 
 func (s *nsStack) Push(prefix, uri string) {
-	s.UniqueStack.Push(nsStackItem{prefix: prefix, href: uri})
+	// a redeclared prefix shadows the outer declaration
+	s.UniqueStack = append(s.UniqueStack, nsStackItem{prefix: prefix, href: uri})
 }
 
 func (s *nsStack) Lookup(prefix string) string {
-- 
2.43.0


From fb66830c51c6b3e2b80ed8b6cd7aedcdad948229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:37 +0000
Subject: [PATCH 02/30] fix: keep CDATA text, stop at the end of input in CDATA
 sections, require '-->'

- TreeBuilder dropped the text of CDATA sections
- an unterminated CDATA section looped for ever, an empty one was rejected
- an unterminated comment was accepted, short ones panicked
- scanning character data, comments and PIs took quadratic time
---
 parserctx.go | 69 ++++++++++++++++++----------------------------------
 tree.go      |  5 ++--
 2 files changed, 27 insertions(+), 47 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 303fdda..20c431f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -615,15 +615,12 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		panic("did not get rune cursor")
 	}
 
-	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
-		if !cdata {
-			if c == '<' || c == '&' || !isChar(c) {
-				break
-			}
+	for c := cur.Peek(); isChar(c); c = cur.Peek() {
+		if !cdata && (c == '<' || c == '&') {
+			break
 		}
 
-		if c == ']' && cur.PeekN(i+2) == ']' && cur.PeekN(i+3) == '>' {
+		if c == ']' && cur.PeekN(2) == ']' && cur.PeekN(3) == '>' {
 			if cdata {
 				break
 			}
@@ -632,15 +629,17 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 		}
 
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
 	}
 
-	if i <= 0 {
-		pdebug.Dump(cur)
-		return errors.New("Invalid char data")
+	if buf.Len() <= 0 {
+		if cdata {
+			// an empty section has nothing to report
+			return nil
+		}
+		return ctx.error(errors.New("Invalid char data"))
 	}
 
-	cur.Advance(i)
 	str := buf.String()
 
 	// XXX This is not right, but it's for now the best place to do this
@@ -1564,20 +1563,15 @@ func (ctx *parserCtx) parsePI() error {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	for c := cur.PeekN(i + 1); c != 0x0; c = cur.PeekN(i + 1) {
-		if c == '?' && cur.PeekN(i+2) == '>' {
+	for c := cur.Peek(); isChar(c); c = cur.Peek() {
+		if c == '?' && cur.PeekN(2) == '>' {
 			break
 		}
 
-		if !isChar(c) {
-			break
-		}
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
 	}
 
-	cur.Advance(i)
 	data := buf.String()
 
 	if !cur.ConsumeString("?>") {
@@ -1984,36 +1978,21 @@ func (ctx *parserCtx) parseComment() error {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	q := cur.PeekN(i + 1)
-	if !isChar(q) {
-		return ctx.error(ErrInvalidChar)
-	}
-	i++
-	buf.WriteRune(q)
-
-	r := cur.PeekN(i + 1)
-	if !isChar(r) {
-		return ctx.error(ErrInvalidChar)
-	}
-	i++
-	buf.WriteRune(r)
-
-	for c := cur.PeekN(i + 1); isChar(c) && (q != '-' || r != '-' || c != '>'); c = cur.PeekN(i + 1) {
-		if q == '-' && r == '-' {
-			return ctx.error(ErrHyphenInComment)
+	for c := cur.Peek(); ; c = cur.Peek() {
+		if c == '-' && cur.PeekN(2) == '-' {
+			if !cur.ConsumeString("-->") {
+				return ctx.error(ErrHyphenInComment)
+			}
+			break
+		}
+		if !isChar(c) {
+			return ctx.error(ErrInvalidChar)
 		}
 		buf.WriteRune(c)
-		q = r
-		r = c
-		i++
+		cur.Advance(1)
 	}
 
-	// -2 for "-->" (note: '>' has not been consumed, so we use -2 instead of -3
-	buf.Truncate(buf.Len() - 2)
 	str := buf.Bytes()
-	// i+1 because '>' was not consumed in the loop
-	cur.Advance(i + 1)
 
 	if sh := ctx.sax; sh != nil {
 		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
diff --git a/tree.go b/tree.go
index d1cfd2a..a963399 100644
--- a/tree.go
+++ b/tree.go
@@ -175,12 +175,13 @@ func (t *TreeBuilder) Characters(ctxif sax.Context, data []byte) error {
 	return n.AddContent(data)
 }
 
-func (t *TreeBuilder) CDataBlock(_ sax.Context, data []byte) error {
+func (t *TreeBuilder) CDataBlock(ctxif sax.Context, data []byte) error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START tree.CDATABlock")
 		defer g.IRelease("END tree.CDATABlock")
 	}
-	return nil
+	// the tree does not keep the section boundaries, only its text
+	return t.Characters(ctxif, data)
 }
 
 func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
-- 
2.43.0


From 1a24e29ffe5bef73427fbff4634a83fa6e616f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:28 +0000
Subject: [PATCH 03/30] fix: decode the whole input before parsing, check the
 XML declaration, keep comment text

Input was fed through a byte cursor that consumed what it looked at, so
UTF-16 documents, byte order marks and undeclared or undecodable encodings
were mishandled; line endings were only translated in some constructs; the
XML declaration was only loosely parsed. Comment nodes shared their text
with a pooled buffer.
---
 comment.go           |   3 +-
 encoding/encoding.go |  32 +++--
 parser_interface.go  |   1 +
 parserctx.go         | 307 ++++++++++++++++++++-----------------------
 4 files changed, 168 insertions(+), 175 deletions(-)

diff --git a/comment.go b/comment.go
index eb00975..9355f73 100644
--- a/comment.go
+++ b/comment.go
@@ -3,7 +3,8 @@ package helium
 func newComment(b []byte) *Comment {
 	t := Comment{}
 	t.etype = CommentNode
-	t.content = b
+	t.content = make([]byte, len(b))
+	copy(t.content, b)
 	return &t
 }
 
diff --git a/encoding/encoding.go b/encoding/encoding.go
index 9bce45e..f0beeda 100644
--- a/encoding/encoding.go
+++ b/encoding/encoding.go
@@ -20,6 +20,12 @@ func Load(name string) enc.Encoding {
 	switch strings.ToLower(name) {
 	case "utf8", "utf-8":
 		return unicode.UTF8
+	case "utf16", "utf-16":
+		return unicode.UTF16(unicode.BigEndian, unicode.UseBOM)
+	case "utf16le", "utf-16le":
+		return unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM)
+	case "utf16be", "utf-16be":
+		return unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)
 	case "euc-jp":
 		return japanese.EUCJP
 	case "shift_jis", "shift-jis", "shiftjis", "cp932":
@@ -60,33 +66,35 @@ func Load(name string) enc.Encoding {
 		return charmap.ISO8859_7
 	case "iso-8859-8":
 		return charmap.ISO8859_8
-	case "koi8r":
+	case "koi8r", "koi8-r":
 		return charmap.KOI8R
-	case "koir8u":
+	case "koir8u", "koi8u", "koi8-u":
 		return charmap.KOI8U
 	case "macintosh":
 		return charmap.Macintosh
 	case "macintoshcyrillic":
 		return charmap.MacintoshCyrillic
-	case "windows1250":
+	case "iso-8859-1":
+		return charmap.ISO8859_1
+	case "windows1250", "windows-1250":
 		return charmap.Windows1250
-	case "windows1251":
+	case "windows1251", "windows-1251":
 		return charmap.Windows1251
-	case "iso-8859-1", "windows1252":
+	case "windows1252", "windows-1252":
 		return charmap.Windows1252
-	case "windows1253":
+	case "windows1253", "windows-1253":
 		return charmap.Windows1253
-	case "windows1254":
+	case "windows1254", "windows-1254":
 		return charmap.Windows1254
-	case "windows1255":
+	case "windows1255", "windows-1255":
 		return charmap.Windows1255
-	case "windows1256":
+	case "windows1256", "windows-1256":
 		return charmap.Windows1256
-	case "windows1257":
+	case "windows1257", "windows-1257":
 		return charmap.Windows1257
-	case "windows1258":
+	case "windows1258", "windows-1258":
 		return charmap.Windows1258
-	case "windows874":
+	case "windows874", "windows-874":
 		return charmap.Windows874
 	case "xuserdefined":
 		return charmap.XUserDefined
diff --git a/parser_interface.go b/parser_interface.go
index 9f36949..ecadea6 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -134,6 +134,7 @@ type parserCtx struct {
 	attsDefault       map[string]map[string]*Attribute
 	valid             bool
 	hasPERefs         bool
+	invalidInput      bool // true if the input could not be decoded to its end
 	pedantic          bool
 	wellFormed        bool
 	depth             int
diff --git a/parserctx.go b/parserctx.go
index 20c431f..66cd9c9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -5,6 +5,7 @@ import (
 	"errors"
 	"fmt"
 	"io"
+	"io/ioutil"
 	"net/url"
 	"strings"
 	"sync"
@@ -280,33 +281,33 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 		return encNone, ErrByteCursorRequired
 	}
 
-	if cur.Consume(patUCS4BE) {
+	// The four byte patterns are document content, so HasPrefix is used
+	// because we don't want to consume them
+	if cur.HasPrefix(patUCS4BE) {
 		encoding = encUCS4BE
 		return
 	}
 
-	if cur.Consume(patUCS4LE) {
+	if cur.HasPrefix(patUCS4LE) {
 		encoding = encUCS4LE
 		return
 	}
 
-	if cur.Consume(patUCS42143) {
+	if cur.HasPrefix(patUCS42143) {
 		encoding = encUCS42143
 		return
 	}
 
-	if cur.Consume(patUCS43412) {
+	if cur.HasPrefix(patUCS43412) {
 		encoding = encUCS43412
 		return
 	}
 
-	// Use HasPrefix here because we don't want to consume it
 	if cur.HasPrefix(patEBCDIC) {
 		encoding = encEBCDIC
 		return
 	}
 
-	// Use HasPrefix here because we don't want to consume it
 	if cur.HasPrefix(patMaybeXMLDecl) {
 		encoding = encUTF8
 		return
@@ -317,12 +318,12 @@ func (ctx *parserCtx) detectEncoding() (encoding string, err error) {
 	 * attempt an "auto-recognition" of UTF-16LE and
 	 * UTF-16BE encodings.
 	 */
-	if cur.Consume(patUTF16LE4B) {
+	if cur.HasPrefix(patUTF16LE4B) {
 		encoding = encUTF16LE
 		return
 	}
 
-	if cur.Consume(patUTF16BE4B) {
+	if cur.HasPrefix(patUTF16BE4B) {
 		encoding = encUTF16BE
 		return
 	}
@@ -351,37 +352,107 @@ func isBlankCh(c rune) bool {
 	return c == 0x20 || (0x9 <= c && c <= 0xa) || c == 0xd
 }
 
+func decodeBytes(encName string, b []byte) ([]byte, error) {
+	enc := encoding.Load(encName)
+	if enc == nil {
+		return nil, errors.New("encoding '" + encName + "' not supported")
+	}
+	return enc.NewDecoder().Bytes(b)
+}
+
+// pushText makes text, which must be UTF-8, the current input. A byte
+// sequence that could not be decoded ends the input, and is remembered
+// because nothing may be accepted from there on.
+func (ctx *parserCtx) pushText(text []byte) {
+	if i := bytes.IndexRune(text, utf8.RuneError); i > -1 {
+		text = text[:i]
+		ctx.invalidInput = true
+	}
+	ctx.popInput()
+	ctx.pushInput(strcursor.NewRuneCursor(bytes.NewReader(text)))
+}
+
+// normalizeNewlines translates line endings as described in section 2.11
+// of the XML recommendation
+func normalizeNewlines(text []byte) []byte {
+	if bytes.IndexByte(text, '\r') < 0 {
+		return text
+	}
+	text = bytes.Replace(text, []byte{'\r', '\n'}, []byte{'\n'}, -1)
+	return bytes.Replace(text, []byte{'\r'}, []byte{'\n'}, -1)
+}
+
+// switchEncoding decodes the input, starting with the XML declaration
+// (if there is one) that tells the encoding of what follows it. Upon
+// return the cursor is placed right after the XML declaration.
 func (ctx *parserCtx) switchEncoding() error {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START switchEncoding()")
 		defer g.IRelease("END switchEncoding")
 	}
 
-	encName := ctx.encoding
-	if encName == "" {
-		encName = ctx.detectedEncoding
-		if encName == "" {
-			encName = "utf8"
-		}
+	// At this stage we MUST be using a ByteCursor, as we
+	// don't know what the encoding is.
+	bcur := ctx.getByteCursor()
+	if bcur == nil {
+		return ErrByteCursorRequired
 	}
 
-	if pdebug.Enabled {
-		pdebug.Printf("Loading encoding '%s'", encName)
+	text, err := ioutil.ReadAll(bcur)
+	if err != nil {
+		return err
 	}
-	enc := encoding.Load(encName)
-	if enc == nil {
-		return errors.New("encoding '" + encName + "' not supported")
+
+	// nothing left? eek
+	if len(text) == 0 {
+		return errors.New("empty document")
 	}
 
-	cur := ctx.getByteCursor()
-	if cur == nil {
-		return ErrByteCursorRequired
+	// Anything but the UTF-16 flavors starts out in ASCII
+	decoded := false
+	switch ctx.detectedEncoding {
+	case encUTF8, encNone:
+	default:
+		if text, err = decodeBytes(ctx.detectedEncoding, text); err != nil {
+			return err
+		}
+		decoded = true
 	}
 
-	b := enc.NewDecoder().Reader(cur)
-	ctx.popInput()
-	ctx.pushInput(strcursor.NewRuneCursor(b))
+	// XML prolog
+	var decl []byte
+	if bytes.HasPrefix(text, xmlDeclHint) && len(text) > len(xmlDeclHint) && isBlankCh(rune(text[len(xmlDeclHint)])) {
+		decl = text
+		if i := bytes.Index(text, []byte{'?', '>'}); i > -1 {
+			decl = text[:i+2]
+		}
+		text = text[len(decl):]
+		decl = normalizeNewlines(decl)
+
+		ctx.pushText(decl)
+		if err := ctx.parseXMLDecl(); err != nil {
+			return ctx.error(err)
+		}
+	}
+
+	if decoded {
+		if ctx.encoding != "" && !strings.HasPrefix(strings.ToLower(ctx.encoding), "utf-16") {
+			return ctx.error(errors.New("document is not encoded in '" + ctx.encoding + "'"))
+		}
+	} else {
+		encName := ctx.encoding
+		if encName == "" {
+			encName = encUTF8
+		}
+		if text, err = decodeBytes(encName, text); err != nil {
+			return ctx.error(err)
+		}
+	}
 
+	// keep the XML declaration in the input, so that line numbers are
+	// counted from the beginning of the document
+	ctx.pushText(append(append([]byte(nil), decl...), normalizeNewlines(text)...))
+	ctx.getCursor().Consume(decl)
 	return nil
 }
 
@@ -409,27 +480,7 @@ func (ctx *parserCtx) parseDocument() error {
 		}
 	}
 
-	// At this stage we MUST be using a ByteCursor, as we
-	// don't know what the encoding is.
-	bcur := ctx.getByteCursor()
-	if bcur == nil {
-		return ctx.error(ErrByteCursorRequired)
-	}
-
-	// nothing left? eek
-	if bcur.Done() {
-		return ctx.error(errors.New("empty document"))
-	}
-
-	// XML prolog
-	if bcur.HasPrefix(xmlDeclHint) {
-		if err := ctx.parseXMLDecl(); err != nil {
-			return ctx.error(err)
-		}
-	}
-
-	// At this point we know the encoding, so switch the encoding
-	// of the source.
+	// Find out about the encoding, and switch the encoding of the source.
 	if err := ctx.switchEncoding(); err != nil {
 		return ctx.error(err)
 	}
@@ -504,6 +555,9 @@ func (ctx *parserCtx) parseDocument() error {
 		if !cur.Done() {
 			return ctx.error(ErrDocumentEnd)
 		}
+		if ctx.invalidInput {
+			return ctx.error(ErrInvalidChar)
+		}
 		ctx.instate = psEOF
 	}
 
@@ -641,9 +695,6 @@ func (ctx *parserCtx) parseCharData(cdata bool) error {
 	}
 
 	str := buf.String()
-
-	// XXX This is not right, but it's for now the best place to do this
-	str = strings.Replace(str, "\r\n", "\n", -1)
 	if ctx.instate == psCDATA {
 		if s := ctx.sax; s != nil {
 			switch err := s.CDataBlock(ctx.userData, []byte(str)); err {
@@ -1147,42 +1198,19 @@ func (ctx *parserCtx) skipBlanks() bool {
 	return false
 }
 
-func (ctx *parserCtx) skipBlankBytes(cur *strcursor.ByteCursor) bool {
-	i := 0
-	if pdebug.Enabled {
-		g := pdebug.IPrintf("START skipBlankBytes")
-		defer func() {
-			g.IRelease("END skipBlankBytes (skipped %d)", i)
-		}()
-	}
-	for c := cur.PeekN(i + 1); c != 0x0 && isBlankCh(rune(c)); c = cur.PeekN(i + 1) {
-		i++
-	}
-	if i > 0 {
-		cur.Advance(i)
-
-		if cur.Peek() == '%' {
-			pdebug.Printf("Found possible parameter entity reference")
-			ctx.handlePEReference()
-		}
-		return true
-	}
-	return false
-}
-
 // should only be here if current buffer is at '<?xml'
 func (ctx *parserCtx) parseXMLDecl() error {
-	cur := ctx.getByteCursor()
+	cur := ctx.getCursor()
 	if cur == nil {
-		return ErrByteCursorRequired
+		panic("did not get rune cursor")
 	}
 
 	if !cur.Consume(xmlDeclHint) {
 		return ctx.error(ErrInvalidXMLDecl)
 	}
 
-	if !ctx.skipBlankBytes(cur) {
-		return errors.New("blank needed after '<?xml'")
+	if !ctx.skipBlanks() {
+		return ctx.error(errors.New("blank needed after '<?xml'"))
 	}
 
 	v, err := ctx.parseVersionInfo()
@@ -1191,42 +1219,44 @@ func (ctx *parserCtx) parseXMLDecl() error {
 	}
 	ctx.version = v
 
-	if !isBlankCh(rune(cur.Peek())) {
-		// if the next character isn't blank, we expect the
-		// end of XML decl, so return success
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
-			return nil
-		}
-
-		// otherwise, we just saw something unexpected
+	blanks := ctx.skipBlanks()
+	if cur.ConsumeString("?>") {
+		return nil
+	}
+	if !blanks {
 		return ctx.error(ErrSpaceRequired)
 	}
 
 	// we *may* have encoding decl
 	v, err = ctx.parseEncodingDecl()
-	if err == nil {
+	switch err.(type) {
+	case nil:
 		// ctx.encoding contains the explicit encoding specified
 		ctx.encoding = v
 
 		// if the encoding decl is found, then we *could* have
 		// the end of the XML declaration
-		if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-			cur.Advance(2)
+		blanks = ctx.skipBlanks()
+		if cur.ConsumeString("?>") {
 			return nil
 		}
-	} else if _, ok := err.(ErrAttrNotFound); ok {
+		if !blanks {
+			return ctx.error(ErrSpaceRequired)
+		}
+	case ErrAttrNotFound:
+		// no op
+	default:
 		return ctx.error(err)
 	}
 
 	vb, err := ctx.parseStandaloneDecl()
 	if err != nil {
-		return err
+		return ctx.error(err)
 	}
 	ctx.standalone = vb
 
-	if cur.Peek() == '?' && cur.PeekN(2) == '>' {
-		cur.Advance(2)
+	ctx.skipBlanks()
+	if cur.ConsumeString("?>") {
 		return nil
 	}
 	return ctx.error(errors.New("XML declaration not closed"))
@@ -1244,7 +1274,7 @@ func (ctx *parserCtx) parseNamedAttribute(name string, cb qtextHandler) (string,
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString(name) {
-		return "", ctx.error(ErrAttrNotFound{Token: name})
+		return "", ErrAttrNotFound{Token: name}
 	}
 
 	ctx.skipBlanks()
@@ -1258,7 +1288,7 @@ func (ctx *parserCtx) parseNamedAttribute(name string, cb qtextHandler) (string,
 }
 
 // parse the XML version info (version="1.0")
-var versionBytes = []byte{'v', 'e', 'r', 's', 'i', 'o', 'n'}
+
 
 func (ctx *parserCtx) parseVersionInfo() (string, error) {
 	if pdebug.Enabled {
@@ -1266,29 +1296,7 @@ func (ctx *parserCtx) parseVersionInfo() (string, error) {
 		defer g.IRelease("END parseVersionInfo")
 	}
 
-	return ctx.parseNamedAttributeBytes(versionBytes, ctx.parseVersionNum)
-}
-
-func (ctx *parserCtx) parseNamedAttributeBytes(name []byte, valueParser qtextHandler) (string, error) {
-	cur := ctx.getByteCursor()
-	if cur == nil {
-		return "", ErrByteCursorRequired
-	}
-
-	ctx.skipBlankBytes(cur)
-	if !cur.Consume(name) {
-		return "", ctx.error(ErrAttrNotFound{Token: string(name)})
-	}
-
-	ctx.skipBlankBytes(cur)
-	if cur.Peek() != '=' {
-		return "", ErrEqualSignRequired
-	}
-	cur.Advance(1)
-
-	ctx.skipBlankBytes(cur)
-
-	return ctx.parseQuotedTextBytes(valueParser)
+	return ctx.parseNamedAttribute("version", ctx.parseVersionNum)
 }
 
 /*
@@ -1301,9 +1309,9 @@ func (ctx *parserCtx) parseNamedAttributeBytes(name []byte, valueParser qtextHan
  * Returns the string giving the XML version number
  */
 func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
-	cur := ctx.getByteCursor()
+	cur := ctx.getCursor()
 	if cur == nil {
-		return "", ErrByteCursorRequired
+		panic("did not get rune cursor")
 	}
 
 	if v := cur.Peek(); v > '9' || v < '0' {
@@ -1335,39 +1343,7 @@ func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
 
 type qtextHandler func(qch rune) (string, error)
 
-func (ctx *parserCtx) parseQuotedTextBytes(cb qtextHandler) (value string, err error) {
-	if pdebug.Enabled {
-		g := pdebug.IPrintf("START parseQuotedTextBytes")
-		defer g.IRelease("END parseQuotedTextBytes")
-		defer func() { pdebug.Printf("value = '%s'", value) }()
-	}
-
-	cur := ctx.getByteCursor()
-	if cur == nil {
-		return "", ErrByteCursorRequired
-	}
-	q := cur.Peek()
-	switch q {
-	case '"', '\'':
-		cur.Advance(1)
-	default:
-		err = errors.New("string not started (got '" + string([]rune{q}) + "')")
-		return
-	}
-
-	value, err = cb(q)
-	if err != nil {
-		return
-	}
-
-	if cur.Peek() != q {
-		err = errors.New("string not closed")
-		return
-	}
-	cur.Advance(1)
 
-	return
-}
 
 func (ctx *parserCtx) parseQuotedText(cb qtextHandler) (value string, err error) {
 	if pdebug.Enabled {
@@ -1403,14 +1379,14 @@ func (ctx *parserCtx) parseQuotedText(cb qtextHandler) (value string, err error)
 	return
 }
 
-var encodingBytes = []byte{'e', 'n', 'c', 'o', 'd', 'i', 'n', 'g'}
+
 
 func (ctx *parserCtx) parseEncodingDecl() (string, error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEncodingDecl")
 		defer g.IRelease("END parseEncodingDecl")
 	}
-	return ctx.parseNamedAttributeBytes(encodingBytes, ctx.parseEncodingName)
+	return ctx.parseNamedAttribute("encoding", ctx.parseEncodingName)
 }
 
 func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
@@ -1418,9 +1394,9 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 		g := pdebug.IPrintf("START parseEncodingName")
 		defer g.IRelease("END parseEncodingName")
 	}
-	cur := ctx.getByteCursor()
+	cur := ctx.getCursor()
 	if cur == nil {
-		return "", ErrByteCursorRequired
+		panic("did not get rune cursor")
 	}
 	c := cur.Peek()
 
@@ -1448,7 +1424,7 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	return buf.String(), nil
 }
 
-var standaloneBytes = []byte{'s', 't', 'a', 'n', 'd', 'a', 'l', 'o', 'n', 'e'}
+
 
 func (ctx *parserCtx) parseStandaloneDecl() (DocumentStandaloneType, error) {
 	if pdebug.Enabled {
@@ -1456,7 +1432,7 @@ func (ctx *parserCtx) parseStandaloneDecl() (DocumentStandaloneType, error) {
 		defer g.IRelease("END parseStandaloneDecl")
 	}
 
-	v, err := ctx.parseNamedAttributeBytes(standaloneBytes, ctx.parseStandaloneDeclValue)
+	v, err := ctx.parseNamedAttribute("standalone", ctx.parseStandaloneDeclValue)
 	if err != nil {
 		return StandaloneInvalidValue, err
 	}
@@ -1472,9 +1448,9 @@ func (ctx *parserCtx) parseStandaloneDeclValue(_ rune) (string, error) {
 		yes = "yes"
 		no  = "no"
 	)
-	cur := ctx.getByteCursor()
+	cur := ctx.getCursor()
 	if cur == nil {
-		return "", ErrByteCursorRequired
+		panic("did not get rune cursor")
 	}
 	if cur.ConsumeString(yes) {
 		return string(yes), nil
@@ -1992,10 +1968,10 @@ func (ctx *parserCtx) parseComment() error {
 		cur.Advance(1)
 	}
 
-	str := buf.Bytes()
+	str := []byte(buf.String())
 
 	if sh := ctx.sax; sh != nil {
-		str = bytes.Replace(str, []byte{'\r', '\n'}, []byte{'\n'}, -1)
+
 		switch err := sh.Comment(ctx, str); err {
 		case nil, sax.ErrHandlerUnspecified:
 			// no op
@@ -4002,10 +3978,17 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	}
 	newctx.pushNode(newRoot)
 	newctx.doc.AddChild(newRoot)
-	newctx.switchEncoding()
+	newctx.pushText(chunk)
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
 	}
+	// the replacement text must be balanced
+	if !newctx.getCursor().Done() {
+		return nil, newctx.error(ErrDocumentEnd)
+	}
+	if newctx.invalidInput {
+		return nil, newctx.error(ErrInvalidChar)
+	}
 
 	if child := newctx.doc.FirstChild(); child != nil {
 		if grandchild := child.FirstChild(); grandchild != nil {
-- 
2.43.0


From 832a2473d3c2863dc7935e069e5f6db02343226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:29 +0000
Subject: [PATCH 04/30] fix: serialise documents in their declared encoding,
 escape literals, report write errors

Also write processing instructions (also those made by CreatePI) with
target and data, keep those of the DTD in the DTD, and write the default
values, entity contents and xmlns="" in a form that reads back as they are.
---
 document.go |   8 +-
 dump.go     | 226 ++++++++++++++++++++++++++++++++--------------------
 pi.go       |   4 +
 tree.go     |  32 +++-----
 4 files changed, 163 insertions(+), 107 deletions(-)

diff --git a/document.go b/document.go
index 1feb434..67287af 100644
--- a/document.go
+++ b/document.go
@@ -168,10 +168,14 @@ func (d *Document) CreateNamespace(prefix, uri string) (*Namespace, error) {
 }
 
 func (d *Document) CreatePI(target, data string) (*ProcessingInstruction, error) {
-	return &ProcessingInstruction{
+	pi := &ProcessingInstruction{
 		target: target,
 		data:   data,
-	}, nil
+	}
+	pi.etype = ProcessingInstructionNode
+	pi.name = target
+	pi.doc = d
+	return pi, nil
 }
 
 func (d *Document) CreateDTD() (*DTD, error) {
diff --git a/dump.go b/dump.go
index 0e1983b..1bf78a3 100644
--- a/dump.go
+++ b/dump.go
@@ -8,7 +8,10 @@ import (
 	"strings"
 	"unicode/utf8"
 
+	"github.com/lestrrat-go/helium/encoding"
 	"github.com/lestrrat-go/pdebug"
+	enc "golang.org/x/text/encoding"
+	"golang.org/x/text/transform"
 )
 
 var (
@@ -16,39 +19,82 @@ var (
 	qch_quote  = []byte{'\''}
 )
 
-func dumpQuotedString(out io.Writer, s string) error {
-	dqi := strings.IndexByte(s, qch_dquote[0])
-	if dqi < 0 {
-		// double quote is allowed, cool!
-		out.Write(qch_dquote)
-		io.WriteString(out, s)
-		out.Write(qch_dquote)
-		return nil
+// dumpWriter is what everything is written to while dumping. It remembers
+// the first error reported by the destination, and knows which characters
+// can be written as is in the encoding of the output.
+type dumpWriter struct {
+	out io.Writer
+	enc enc.Encoding // nil if every character can be encoded
+	err error
+}
+
+func (w *dumpWriter) Write(b []byte) (int, error) {
+	if w.err != nil {
+		return 0, w.err
+	}
+	n, err := w.out.Write(b)
+	if err == nil && n < len(b) {
+		err = io.ErrShortWrite
 	}
+	w.err = err
+	return n, err
+}
 
-	if qi := strings.IndexByte(s, qch_quote[0]); qi < 0 {
-		// single quotes, then
-		out.Write(qch_quote)
-		io.WriteString(out, s)
-		out.Write(qch_quote)
-		return nil
+func canEncode(out io.Writer, r rune) bool {
+	w, ok := out.(*dumpWriter)
+	if !ok || w.enc == nil || r < utf8.RuneSelf {
+		return true
+	}
+	// some encoders substitute similar characters
+	b, err := w.enc.NewEncoder().Bytes([]byte(string(r)))
+	if err != nil {
+		return false
 	}
+	b, err = w.enc.NewDecoder().Bytes(b)
+	return err == nil && string(b) == string(r)
+}
 
-	// Grr, can't use " or '. Well, let's escape all the double
-	// quotes to &quot;, and quote the string
+func dumpQuotedString(out io.Writer, s string) error {
+	qch := '"'
+	if strings.IndexByte(s, qch_dquote[0]) > -1 && strings.IndexByte(s, qch_quote[0]) < 0 {
+		// single quotes, then
+		qch = '\''
+	}
 
-	out.Write(qch_dquote)
-	for len(s) > 0 && dqi > -1 {
-		io.WriteString(out, s[:dqi])
-		s = s[dqi+1:]
-		dqi = strings.IndexByte(s, qch_dquote[0])
+	io.WriteString(out, string(qch))
+	for _, r := range s {
+		// Grr, can't use " or '. Well, let's escape all the double
+		// quotes to a character reference
+		if r == qch || !canEncode(out, r) {
+			fmt.Fprintf(out, "&#%d;", r)
+		} else {
+			io.WriteString(out, string(r))
+		}
 	}
+	_, err := io.WriteString(out, string(qch))
+	return err
+}
 
-	if len(s) > 0 {
-		io.WriteString(out, s)
+// dumpDefaultValue writes the default value of an attribute. References
+// are kept in the value (including those to ampersands), but the other
+// characters with a special meaning are not escaped yet.
+func dumpDefaultValue(out io.Writer, s string) error {
+	buf := bytes.Buffer{}
+	for _, r := range s {
+		switch r {
+		case '<':
+			buf.Write(esc_lt)
+		case '\n':
+			buf.Write(esc_nl)
+		case '\r':
+			buf.Write(esc_cr)
+		case '\t':
+			buf.Write(esc_tab)
+		default:
+			buf.WriteRune(r)
+		}
 	}
-	out.Write(qch_dquote)
-	return nil
+	return dumpQuotedString(out, buf.String())
 }
 
 var (
@@ -70,7 +116,7 @@ func isInCharacterRange(r rune) (inrange bool) {
 	return r == 0x09 ||
 		r == 0x0A ||
 		r == 0x0D ||
-		r >= 0x20 && r <= 0xDF77 ||
+		r >= 0x20 && r <= 0xD7FF ||
 		r >= 0xE000 && r <= 0xFFFD ||
 		r >= 0x10000 && r <= 0x10FFFF
 }
@@ -107,7 +153,7 @@ func escapeAttrValue(w io.Writer, s []byte) error {
 			esc = esc_tab
 		default:
 			if !(0x20 <= r && r < 0x80) {
-				if r < 0xE0 {
+				if r < 0xE0 || !canEncode(w, r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -167,7 +213,7 @@ func escapeText(w io.Writer, s []byte, escapeNewline bool) error {
 			esc = esc_cr
 		default:
 			if !(r == '\t' || (0x20 <= r && r < 0x80)) {
-				if r < 0xE0 {
+				if r < 0xE0 || !canEncode(w, r) {
 					esc = []byte(fmt.Sprintf("&#x%X;", r))
 					break
 				}
@@ -208,17 +254,37 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 		defer g.IRelease("END Dumper.DumpDoc")
 	}
 
-	if err := d.DumpNode(out, doc); err != nil {
+	w := &dumpWriter{out: out}
+
+	// the document is written in the encoding it declares
+	var encoder io.WriteCloser
+	if name := doc.encoding; name != "" {
+		e := encoding.Load(name)
+		if e == nil {
+			return errors.New("encoding '" + name + "' not supported")
+		}
+		if e != encoding.Load("utf-8") {
+			encoder = transform.NewWriter(out, e.NewEncoder())
+			w.out = encoder
+			w.enc = e
+		}
+	}
+
+	if err := d.DumpNode(w, doc); err != nil {
 		return err
 	}
 
 	for e := doc.FirstChild(); e != nil; e = e.NextSibling() {
-		if err := d.DumpNode(out, e); err != nil {
+		if err := d.DumpNode(w, e); err != nil {
 			return err
 		}
-		io.WriteString(out, "\n")
+		io.WriteString(w, "\n")
 	}
-	return nil
+
+	if encoder != nil && w.err == nil {
+		w.err = encoder.Close()
+	}
+	return w.err
 }
 
 func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
@@ -235,8 +301,8 @@ func (d *Dumper) dumpDocContent(out io.Writer, n Node) error {
 	}
 	io.WriteString(out, version+`"`)
 
-	if encoding := doc.encoding; encoding != "" {
-		io.WriteString(out, ` encoding="`+encoding+`"`)
+	if name := doc.encoding; name != "" {
+		io.WriteString(out, ` encoding="`+name+`"`)
 	}
 
 	switch doc.Standalone() {
@@ -265,8 +331,7 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 		io.WriteString(out, " ")
 	}
 
-	if len(dtd.entities) == 0 && len(dtd.elements) == 0 && len(dtd.pentities) == 0 && len(dtd.attributes) == 0 {
-		/* (dtd.notations == NULL) && */
+	if dtd.FirstChild() == nil {
 		io.WriteString(out, ">")
 		return nil
 	}
@@ -305,13 +370,13 @@ func dumpElementDeclPrologue(out io.Writer, n *ElementDecl) {
 }
 
 func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
+	if n == nil {
+		return nil
+	}
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START Dumper.dumpElementContent n = '%s'", n.name)
 		defer g.IRelease("END Dumper.dumpElementContent")
 	}
-	if n == nil {
-		return nil
-	}
 
 	if glob {
 		io.WriteString(out, "(")
@@ -393,42 +458,12 @@ func dumpElementContent(out io.Writer, n *ElementContent, glob bool) error {
 }
 
 func dumpEntityContent(out io.Writer, content string) error {
-	if strings.IndexByte(content, '%') == -1 {
-		dumpQuotedString(out, content)
-		return nil
-	}
-
-	io.WriteString(out, `"`)
-	rdr := strings.NewReader(content)
-	buf := bytes.Buffer{}
-	for rdr.Len() > 0 {
-		c, err := rdr.ReadByte()
-		if err != nil {
-			return err
-		}
-		switch c {
-		case '"':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
-			}
-			io.WriteString(out, "&quot;")
-		case '%':
-			if buf.Len() > 0 {
-				buf.WriteTo(out)
-				buf.Reset()
-			}
-			io.WriteString(out, "&#x25;")
-		default:
-			buf.WriteByte(c)
-		}
-	}
-	if buf.Len() > 0 {
-		buf.WriteTo(out)
-	}
-	io.WriteString(out, `"`)
-
-	return nil
+	// content is the replacement text, where character references were
+	// expanded already
+	content = strings.Replace(content, "&#", "&#38;#", -1)
+	content = strings.Replace(content, "%", "&#x25;", -1)
+	content = strings.Replace(content, "\r", "&#13;", -1)
+	return dumpQuotedString(out, content)
 }
 
 func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
@@ -540,6 +575,8 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		io.WriteString(out, " IDREFS")
 	case AttrEntity:
 		io.WriteString(out, " ENTITY")
+	case AttrEntities:
+		io.WriteString(out, " ENTITIES")
 	case AttrNmtoken:
 		io.WriteString(out, " NMTOKEN")
 	case AttrNmtokens:
@@ -571,9 +608,9 @@ func (d *Dumper) dumpAttributeDecl(out io.Writer, n *AttributeDecl) error {
 		return errors.New("invalid AttributeDecl default value type")
 	}
 
-	if n.defvalue != "" {
+	if n.def == AttrDefaultNone || n.def == AttrDefaultFixed {
 		io.WriteString(out, " ")
-		dumpQuotedString(out, n.defvalue)
+		dumpDefaultValue(out, n.defvalue)
 	}
 	io.WriteString(out, ">\n")
 	return nil
@@ -589,11 +626,6 @@ func (d *Dumper) dumpNsList(out io.Writer, nslist []*Namespace) error {
 }
 
 func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
-	if ns.href == "" {
-		// no op
-		return nil
-	}
-
 	io.WriteString(out, " ")
 
 	if ns.prefix == "" {
@@ -602,8 +634,9 @@ func (d *Dumper) dumpNs(out io.Writer, ns *Namespace) error {
 		io.WriteString(out, "xmlns:")
 		io.WriteString(out, ns.prefix)
 	}
-	io.WriteString(out, "=")
-	dumpQuotedString(out, ns.href)
+	io.WriteString(out, `="`)
+	escapeAttrValue(out, []byte(ns.href))
+	io.WriteString(out, `"`)
 	return nil
 }
 
@@ -613,6 +646,18 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		defer g.IRelease("END Dumper.DumpNode")
 	}
 
+	w, ok := out.(*dumpWriter)
+	if !ok {
+		w = &dumpWriter{out: out}
+	}
+	if err := d.dumpNode(w, n); err != nil {
+		return err
+	}
+	return w.err
+}
+
+func (d *Dumper) dumpNode(out io.Writer, n Node) error {
+
 	var err error
 	switch n.Type() {
 	case DocumentNode:
@@ -637,12 +682,21 @@ func (d *Dumper) DumpNode(out io.Writer, n Node) error {
 		return nil
 	case TextNode:
 		c := n.Content()
-		if string(c) == XMLTextNoEnc {
-			panic("unimplemented")
+		if n.Name() == XMLTextNoEnc {
+			out.Write(c)
 		} else {
 			escapeText(out, c, false)
 		}
 		return nil // no recursing down
+	case ProcessingInstructionNode:
+		io.WriteString(out, "<?")
+		io.WriteString(out, n.Name())
+		if c := n.Content(); len(c) > 0 {
+			io.WriteString(out, " ")
+			out.Write(c)
+		}
+		io.WriteString(out, "?>")
+		return nil
 	case ElementDeclNode:
 		if err = d.dumpElementDecl(out, n.(*ElementDecl)); err != nil {
 			return err
diff --git a/pi.go b/pi.go
index fdd76b6..230f7a4 100644
--- a/pi.go
+++ b/pi.go
@@ -4,6 +4,10 @@ func (p *ProcessingInstruction) Type() ElementType {
 	return ProcessingInstructionNode
 }
 
+func (p *ProcessingInstruction) Content() []byte {
+	return []byte(p.data)
+}
+
 func (p *ProcessingInstruction) AddChild(cur Node) error {
 	return addChild(p, cur)
 }
diff --git a/tree.go b/tree.go
index a963399..4bfe12a 100644
--- a/tree.go
+++ b/tree.go
@@ -55,22 +55,24 @@ func (t *TreeBuilder) ProcessingInstruction(ctxif sax.Context, target, data stri
 		return err
 	}
 
+	return t.addMisc(ctx, pi)
+}
+
+// addMisc adds a comment or a processing instruction
+func (t *TreeBuilder) addMisc(ctx *parserCtx, n Node) error {
+	doc := ctx.doc
 	switch ctx.inSubset {
-	case 1:
-		doc.IntSubset().AddChild(pi)
-	case 2:
-		doc.ExtSubset().AddChild(pi)
+	case inInternalSubset:
+		return doc.IntSubset().AddChild(n)
+	case inExternalSubset:
+		return doc.ExtSubset().AddChild(n)
 	}
 
 	parent := ctx.elem
 	if parent == nil {
-		doc.AddChild(pi)
-	} else if parent.Type() == ElementNode {
-		parent.AddChild(pi)
-	} else {
-		parent.AddSibling(pi)
+		return doc.AddChild(n)
 	}
-	return nil
+	return parent.AddChild(n)
 }
 
 func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri string, namespaces []sax.Namespace, attrs []sax.Attribute) error {
@@ -201,15 +203,7 @@ func (t *TreeBuilder) Comment(ctxif sax.Context, data []byte) error {
 		return err
 	}
 
-	n := ctx.elem
-	if n == nil {
-		doc.AddChild(e)
-	} else if n.Type() == ElementNode {
-		n.AddChild(e)
-	} else {
-		n.AddSibling(e)
-	}
-	return nil
+	return t.addMisc(ctx, e)
 }
 
 func (t *TreeBuilder) InternalSubset(ctxif sax.Context, name, eid, uri string) error {
-- 
2.43.0


From c761c48f5634891a992b69a31f548b65fe3b8438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:41 +0000
Subject: [PATCH 05/30] fix: consume names in one pass, accept combining
 characters, require name tokens

parseNmtoken looped forever, names were scanned in quadratic time, and
combining characters and extenders were not accepted in names. Reserve
processing instruction targets that match 'xml' in any case.
---
 parserctx.go | 86 +++++++++++++++++-----------------------------------
 1 file changed, 27 insertions(+), 59 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 66cd9c9..319dcff 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1603,28 +1603,15 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
-	buf.WriteRune(c)
-
-	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if c == ' ' || c == '>' || c == '/' { /* accelerator */
-			i--
-			break
-		}
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '.' && c != '-' && c != '_' && c != ':' /* && !isCombining(c) && !isExtender(c) */ {
-			i--
-			break
+	for i := 0; isNameChar(c); c = cur.Peek() {
+		if i++; i > MaxNameLength {
+			err = ctx.error(ErrNameTooLong)
+			return
 		}
 		buf.WriteRune(c)
-
-		i++
-	}
-	if i > MaxNameLength {
-		err = ctx.error(ErrNameTooLong)
-		return
+		cur.Advance(1)
 	}
 
-	cur.Advance(i)
 	name = buf.String()
 	if name == "" {
 		err = ctx.error(errors.New("internal error: parseName returned with empty name"))
@@ -1657,18 +1644,7 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	var v string
 	v, err = ctx.parseNCName()
 	if err != nil {
-		oerr := err
-		if cur.Peek() != ':' {
-			v, err = ctx.parseName()
-			if err != nil {
-				err = ctx.error(errors.New("failed to parse QName '" + v + "'"))
-				return
-			}
-			local = v
-			err = nil
-			return
-		}
-		err = ctx.error(oerr)
+		err = ctx.error(err)
 		return
 	}
 
@@ -1681,19 +1657,11 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	cur.Advance(1)
 	prefix = v
 
-	v, err = ctx.parseNCName()
-	if err == nil {
-		local = v
-		return
-	}
-
-	v, err = ctx.parseNmtoken()
-	if err == nil {
-		local = v
-		return
+	if isNameStartChar(cur.Peek()) {
+		v, err = ctx.parseNCName()
+	} else {
+		v, err = ctx.parseNmtoken()
 	}
-
-	v, err = ctx.parseName()
 	if err != nil {
 		err = ctx.error(err)
 		return
@@ -1709,7 +1677,7 @@ func isNameStartChar(r rune) bool {
 func isNameChar(r rune) bool {
 	return r == '.' || r == '-' || r == '_' || r == ':' ||
 		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.Extender)
+		unicode.In(r, unicode.M, unicode.Extender)
 }
 
 /**
@@ -1727,7 +1695,6 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 		defer g.IRelease("END parseNmtoken")
 	}
 
-	i := 1
 	cur := ctx.getCursor()
 	if cur == nil {
 		panic("did not get rune cursor")
@@ -1735,11 +1702,16 @@ func (ctx *parserCtx) parseNmtoken() (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	for c := cur.PeekN(i); c != 0x0; i++ {
-		if !isNameChar(c) {
-			break
+	i := 0
+	for c := cur.Peek(); isNameChar(c); c = cur.Peek() {
+		if i++; i > MaxNameLength {
+			return "", ctx.error(ErrNameTooLong)
 		}
 		buf.WriteRune(c)
+		cur.Advance(1)
+	}
+	if i == 0 {
+		return "", ctx.error(ErrNmtokenRequired)
 	}
 
 	return buf.String(), nil
@@ -1781,23 +1753,19 @@ func (ctx *parserCtx) parseNCName() (ncname string, err error) {
 		return
 	}
 	buf.WriteRune(c)
+	cur.Advance(1)
 
 	// at this point we have at least 1 character name.
 	// see how much more we got here
-	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !unicode.IsLetter(c) && !unicode.IsDigit(c) && c != '_' && c != '-' && c != '.' {
-			i--
-			break
+	i := 1
+	for c = cur.Peek(); c != ':' && isNameChar(c); c = cur.Peek() {
+		if i++; i > MaxNameLength {
+			err = ctx.error(ErrNameTooLong)
+			return
 		}
 		buf.WriteRune(c)
-		i++
-	}
-	if i > MaxNameLength {
-		err = ctx.error(ErrNameTooLong)
-		return
+		cur.Advance(1)
 	}
-	cur.Advance(i)
 	ncname = buf.String()
 	return
 }
@@ -1813,7 +1781,7 @@ func (ctx *parserCtx) parsePITarget() (string, error) {
 		return "", ctx.error(err)
 	}
 
-	if name == "xml" {
+	if strings.EqualFold(name, "xml") {
 		return "", errors.New("XML declaration allowed only at the start of the document")
 	}
 
-- 
2.43.0


From c79f8e25c467bc2f29a6df5328df85926a5c7109 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 06/30] fix: reject malformed internal subsets instead of
 looping, keep content model operators

Declarations that could not be recognised made no progress, so that the
subset was scanned for ever; content models lost their groups, operators
and the names of mixed content.
---
 parserctx.go | 57 +++++++++++++++++++++++++++++++++++++---------------
 valid.go     |  3 ++-
 2 files changed, 43 insertions(+), 17 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 319dcff..ab738e2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1965,7 +1965,9 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return ctx.error(ErrInvalidDTD)
 	}
 
-	ctx.skipBlanks()
+	if !ctx.skipBlanks() {
+		return ctx.error(ErrSpaceRequired)
+	}
 
 	name, err := ctx.parseName()
 	if err != nil {
@@ -2031,15 +2033,16 @@ func (ctx *parserCtx) parseInternalSubset() error {
 	ctx.instate = psDTD
 	cur.Advance(1)
 
-	for !cur.Done() && cur.Peek() != ']' {
-		ctx.skipBlanks()
-		if err := ctx.parseMarkupDecl(); err != nil {
-			return ctx.error(err)
+	for ctx.skipBlanks(); !cur.Done() && cur.Peek() != ']'; ctx.skipBlanks() {
+		if cur.Peek() == '%' {
+			if err := ctx.parsePEReference(); err != nil {
+				return ctx.error(err)
+			}
+			continue
 		}
-		if err := ctx.parsePEReference(); err != nil {
+		if err := ctx.parseMarkupDecl(); err != nil {
 			return ctx.error(err)
 		}
-
 	}
 
 	if cur.Peek() == ']' {
@@ -2085,7 +2088,9 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	if cur.Peek() == '<' {
+	if cur.Peek() != '<' {
+		return ctx.error(ErrInvalidDTD)
+	} else {
 		if cur.PeekN(2) == '!' {
 			switch cur.PeekN(3) {
 			case 'E':
@@ -2098,6 +2103,8 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					if err := ctx.parseEntityDecl(); err != nil {
 						return ctx.error(err)
 					}
+				} else {
+					return ctx.error(ErrInvalidDTD)
 				}
 			case 'A': // <!A...
 				if err := ctx.parseAttributeListDecl(); err != nil {
@@ -2112,10 +2119,12 @@ func (ctx *parserCtx) parseMarkupDecl() error {
 					return ctx.error(err)
 				}
 			default:
-				// no op: error detected later?
+				return ctx.error(ErrInvalidDTD)
 			}
 		} else if cur.PeekN(2) == '?' {
 			return ctx.parsePI()
+		} else {
+			return ctx.error(ErrInvalidDTD)
 		}
 	}
 
@@ -2340,6 +2349,7 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 			return UndefinedElementType, ctx.error(err)
 		}
 	} else {
+		return UndefinedElementType, ctx.error(ErrInvalidElementDecl)
 		/*
 		   // [ WFC: PEs in Internal Subset ] error handling.
 		      if ((RAW == '%') && (ctxt->external == 0) &&
@@ -2466,6 +2476,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 	if !cur.ConsumeString("#PCDATA") {
 		return nil, ctx.error(ErrPCDATARequired)
 	}
+	ctx.skipBlanks()
 
 	if cur.Peek() == ')' {
 		/*
@@ -2519,7 +2530,7 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 			if err != nil {
 				return nil, ctx.error(err)
 			}
-			n.c1, err = ctx.doc.CreateElementContent("", ElementContentElement)
+			n.c1, err = ctx.doc.CreateElementContent(elem, ElementContentElement)
 			if err != nil {
 				return nil, ctx.error(err)
 			}
@@ -2555,6 +2566,8 @@ func (ctx *parserCtx) parseElementMixedContentDecl() (*ElementContent, error) {
 		                                    NULL, NULL);
 		   					}
 		*/
+	} else {
+		return nil, ctx.error(ErrElementContentNotFinished)
 	}
 	return retelem, nil
 }
@@ -2606,7 +2619,8 @@ func (ctx *parserCtx) parseElementChildrenContentDeclPriv(depth int) (*ElementCo
 	if cur.Peek() == '(' {
 		cur.Advance(1)
 		ctx.skipBlanks()
-		retelem, err := ctx.parseElementChildrenContentDeclPriv(depth + 1)
+		var err error
+		retelem, err = ctx.parseElementChildrenContentDeclPriv(depth + 1)
 		if err != nil {
 			return nil, ctx.error(err)
 		}
@@ -2736,6 +2750,9 @@ LOOP:
 		curelem.c2 = last
 		last.parent = curelem
 	}
+	if cur.Peek() != ')' {
+		return nil, ctx.error(ErrElementContentNotFinished)
+	}
 	cur.Advance(1)
 	/*
 	   	    if ((ctxt->validate) && (ctxt->input->id != inputchk)) {
@@ -2750,7 +2767,7 @@ LOOP:
 	case '?':
 		// XXX why would ret be null?
 		if retelem != nil {
-			if retelem.coccur == ElementContentPlus {
+			if retelem.coccur == ElementContentPlus || retelem.coccur == ElementContentMult {
 				retelem.coccur = ElementContentMult
 			} else {
 				retelem.coccur = ElementContentOpt
@@ -2776,8 +2793,9 @@ LOOP:
 				curelem = curelem.c2
 			}
 		}
+		cur.Advance(1)
 	case '+':
-		if retelem.coccur == ElementContentOpt {
+		if retelem.coccur == ElementContentOpt || retelem.coccur == ElementContentMult {
 			retelem.coccur = ElementContentMult
 		} else {
 			retelem.coccur = ElementContentPlus
@@ -2789,6 +2807,7 @@ LOOP:
 		 * (a | b?)+ == (a | b)*
 		 */
 		found := false
+		curelem = retelem
 		for curelem != nil && curelem.ctype == ElementContentOr {
 			if curelem.c1 != nil && (curelem.c1.coccur == ElementContentOpt || curelem.c1.coccur == ElementContentMult) {
 				curelem.c1.coccur = ElementContentOnce
@@ -2804,6 +2823,7 @@ LOOP:
 		if found {
 			retelem.coccur = ElementContentMult
 		}
+		cur.Advance(1)
 	}
 
 	return retelem, nil
@@ -3775,7 +3795,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 		panic("did not get rune cursor")
 	}
 	if !cur.ConsumeString("<!ATTLIST") {
-		return nil
+		return ctx.error(ErrInvalidDTD)
 	}
 
 	if !isBlankCh(cur.Peek()) {
@@ -3861,9 +3881,14 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			           }
 			*/
 			cur.Advance(1)
-			break
+			return nil
 		}
 	}
+
+	if cur.Peek() != '>' {
+		return ctx.error(ErrGtRequired)
+	}
+	cur.Advance(1)
 	return nil
 }
 
@@ -3872,7 +3897,7 @@ func (ctx *parserCtx) parseNotationDecl() error {
 		g := pdebug.IPrintf("START parseNotationDecl")
 		defer g.IRelease("END parseNotationDecl")
 	}
-	return nil
+	return ctx.error(ErrUnimplemented{target: "parseNotationDecl"})
 }
 
 func (ctx *parserCtx) parseExternalID() (string, string, error) {
diff --git a/valid.go b/valid.go
index eae00b9..26d3a6a 100644
--- a/valid.go
+++ b/valid.go
@@ -73,8 +73,9 @@ func (elem *ElementContent) copyElementContent() *ElementContent {
 				tmp.c1 = cur.c1.copyElementContent()
 			}
 			if tmp.c1 != nil {
-				tmp.c1.parent = ret
+				tmp.c1.parent = &tmp
 			}
+			tmp.parent = prev
 
 			prev = &tmp
 			cur = cur.c2
-- 
2.43.0


From 630dde02eb9295a128218db9fa34047e267b3af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:42 +0000
Subject: [PATCH 07/30] fix: report attribute errors, normalise and default
 attributes per their declarations

Errors in attribute values were dropped, tokenised attributes with only
blanks panicked, declared types and defaults were looked up by local name,
defaults were decoded twice, came in random order and were reported for
explicit attributes too. The first attribute declaration is binding, and
declared elements are found by their name.
---
 dtd.go              |  8 +++-
 parser_interface.go |  2 +-
 parserctx.go        | 91 ++++++++++++++++++++++-----------------------
 tree.go             | 21 ++++++++---
 4 files changed, 66 insertions(+), 56 deletions(-)

diff --git a/dtd.go b/dtd.go
index 63e72b2..0bf7625 100644
--- a/dtd.go
+++ b/dtd.go
@@ -166,8 +166,12 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 }
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
-	ret, ok := dtd.elements[name]
-	return ret, ok
+	var prefix string
+	if i := strings.IndexByte(name, ':'); i > -1 {
+		prefix = name[:i]
+		name = name[i+1:]
+	}
+	return dtd.LookupElement(name, prefix)
 }
 
 func (dtd *DTD) AddChild(cur Node) error {
diff --git a/parser_interface.go b/parser_interface.go
index ecadea6..a3e85bb 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -131,7 +131,7 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
-	attsDefault       map[string]map[string]*Attribute
+	attsDefault       map[string][]*attrData
 	valid             bool
 	hasPERefs         bool
 	invalidInput      bool // true if the input could not be decoded to its end
diff --git a/parserctx.go b/parserctx.go
index ab738e2..71a898a 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -219,7 +219,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
-	ctx.attsDefault = map[string]map[string]*Attribute{}
+	ctx.attsDefault = map[string][]*attrData{}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -787,9 +787,15 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 		return false, ctx.error(err)
 	}
 
+	elemName := local
+	if prefix != "" {
+		elemName = prefix + ":" + local
+	}
+
 	empty := false
 	nbNs := 0
 	attrs := []sax.Attribute{}
+	seen := map[string]struct{}{}
 	for ctx.instate != psEOF {
 		blanks := ctx.skipBlanks()
 		if cur.Peek() == '>' {
@@ -806,7 +812,7 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 			return false, ctx.error(ErrSpaceRequired)
 		}
 
-		attname, aprefix, attvalue, err := ctx.parseAttribute(local)
+		attname, aprefix, attvalue, err := ctx.parseAttribute(elemName)
 		if err != nil {
 			return false, ctx.error(err)
 		}
@@ -866,26 +872,27 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 			value:     attvalue,
 		}
 
+		// [ WFC: Unique Att Spec ]
+		if _, ok := seen[attr.Name()]; ok {
+			return false, ctx.error(ErrDuplicateAttribute)
+		}
+		seen[attr.Name()] = struct{}{}
+
 		attrs = append(attrs, attr)
 	}
 
 	// attributes defaulting
 	// XXX Punting a lot of stuff here. See xmlParseStartTag2
 	if len(ctx.attsDefault) > 0 {
-		var elemName string
-		if prefix != "" {
-			elemName = prefix + ":" + local
-		} else {
-			elemName = local
-		}
-
 		if pdebug.Enabled {
 			pdebug.Printf("-------> %s", elemName)
 		}
 		defaults, ok := ctx.lookupAttributeDefault(elemName)
 		if ok {
 			for _, attr := range defaults {
-				attrs = append(attrs, attr)
+				if _, ok := seen[attr.Name()]; !ok {
+					attrs = append(attrs, attr)
+				}
 			}
 		}
 	}
@@ -990,9 +997,9 @@ func (ctx *parserCtx) parseAttributeValue(normalize bool) (value string, entitie
 		defer g.IRelease("END parseAttributeValue")
 	}
 
-	ctx.parseQuotedText(func(qch rune) (string, error) {
-		value, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
-		return "", nil
+	value, err = ctx.parseQuotedText(func(qch rune) (s string, err error) {
+		s, entities, err = ctx.parseAttributeValueInternal(qch, normalize)
+		return
 	})
 	return
 }
@@ -1007,6 +1014,10 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 		}()
 	}
 
+	oldstate := ctx.instate
+	ctx.instate = psAttributeValue
+	defer func() { ctx.instate = oldstate }()
+
 	cur := ctx.getCursor()
 	if cur == nil {
 		panic("did not get rune cursor")
@@ -1090,14 +1101,7 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 
 	value = b.String()
 	if inSpace && normalize {
-		if value[len(value)-1] == 0x20 {
-			for len(value) > 0 {
-				if value[len(value)-1] != 0x20 {
-					break
-				}
-				value = value[:len(value)-1]
-			}
-		}
+		value = strings.TrimRight(value, "\x20")
 	}
 
 	return
@@ -1118,9 +1122,10 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 
 	normalize := false
-	attType, ok := ctx.lookupSpecialAttribute(elemName, l)
+	attrName := attrData{localname: l, prefix: p}.Name()
+	attType, ok := ctx.lookupSpecialAttribute(elemName, attrName)
 	if pdebug.Enabled {
-		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, l, attType, ok)
+		pdebug.Printf("looked up attribute %s:%s -> %d (%t)", elemName, attrName, attType, ok)
 	}
 	if ok && attType != AttrInvalid {
 		normalize = true
@@ -1133,6 +1138,7 @@ func (ctx *parserCtx) parseAttribute(elemName string) (local string, prefix stri
 	}
 	if cur.Peek() != '=' {
 		err = ctx.error(ErrEqualSignRequired)
+		return
 	}
 	cur.Advance(1)
 	ctx.skipBlanks()
@@ -3574,7 +3580,7 @@ func (ctx *parserCtx) attrNormalizeSpace(s string) (value string) {
 		out = append(out, 0x20) // append a single space
 	}
 
-	if out[len(out)-1] == 0x20 {
+	if len(out) > 0 && out[len(out)-1] == 0x20 {
 		out = out[:len(out)-1]
 	}
 	value = string(out)
@@ -3601,16 +3607,19 @@ func (ctx *parserCtx) cleanSpecialAttributes() {
 }
 
 func (ctx *parserCtx) addSpecialAttribute(elemName, attrName string, typ AttributeType) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START addSpecialAttribute(%s, %d)", key, typ)
 		defer g.IRelease("END addSpecialAttribute")
 	}
-	ctx.attsSpecial[key] = typ
+	// the first declaration is binding
+	if _, ok := ctx.attsSpecial[key]; !ok {
+		ctx.attsSpecial[key] = typ
+	}
 }
 
 func (ctx *parserCtx) lookupSpecialAttribute(elemName, attrName string) (AttributeType, bool) {
-	key := elemName + ":" + attrName
+	key := elemName + " " + attrName
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START lookupSpecialAttribute(%s)", key)
 		defer g.IRelease("END lookupSpecialAttribute")
@@ -3735,15 +3744,6 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		return
 	}
 
-	// XXX seems like when your language has a map, you can do just
-	// kinda do away with a bunch of stuff..  See xmlAddDefAttrs for
-	// details of what the original code is doing
-	m, ok := ctx.attsDefault[elemName]
-	if !ok {
-		m = map[string]*Attribute{}
-		ctx.attsDefault[elemName] = m
-	}
-
 	var prefix string
 	var local string
 	if i := strings.IndexByte(attrName, ':'); i > -1 {
@@ -3753,15 +3753,12 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 		local = attrName
 	}
 
-	uri := ctx.lookupNamespace(prefix)
-	attr, err := ctx.doc.CreateAttribute(local, defaultValue, newNamespace(prefix, uri))
-	if err != nil {
-		// XXX Unhandled?!
-		return
-	}
-
-	attr.SetDefault(true)
-	m[attrName] = attr
+	ctx.attsDefault[elemName] = append(ctx.attsDefault[elemName], &attrData{
+		localname: local,
+		prefix:    prefix,
+		value:     defaultValue,
+		isDefault: true,
+	})
 
 	/*
 	   	hmm, let's think about this when the time comes
@@ -3772,7 +3769,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 	*/
 }
 
-func (ctx *parserCtx) lookupAttributeDefault(elemName string) (map[string]*Attribute, bool) {
+func (ctx *parserCtx) lookupAttributeDefault(elemName string) ([]*attrData, bool) {
 	v, ok := ctx.attsDefault[elemName]
 	return v, ok
 }
@@ -3864,7 +3861,7 @@ func (ctx *parserCtx) parseAttributeListDecl() error {
 			}
 		}
 
-		if defvalue != "" && def != AttrDefaultImplied && def != AttrDefaultRequired {
+		if def != AttrDefaultImplied && def != AttrDefaultRequired {
 			ctx.addAttributeDefault(elemName, attrName, defvalue)
 		}
 
diff --git a/tree.go b/tree.go
index 4bfe12a..4fc76fc 100644
--- a/tree.go
+++ b/tree.go
@@ -104,7 +104,9 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 		e.SetNamespace(ns.Prefix(), ns.URI(), false)
 	}
 
-	pdebug.Printf("We got %d attributes", len(attrs))
+	if pdebug.Enabled {
+		pdebug.Printf("We got %d attributes", len(attrs))
+	}
 	for _, attr := range attrs {
 		if attr.IsDefault() && !ctx.loadsubset.IsSet(CompleteAttrs) {
 			if pdebug.Enabled {
@@ -299,11 +301,8 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 
 	ctx := ctxif.(*parserCtx)
 
-	if aName == "xml:id" && typ != int(AttrID) {
-		// libxml2 says "raise the error but keep the validity flag"
-		// but I don't know if we can do that..
-		return errors.New("xml:id: attribute type should be AttrID")
-	}
+	// note: libxml2 reports an xml:id that is not an AttrID, but goes on.
+	// We have nowhere to report it to
 	var prefix string
 	var local string
 	if i := strings.IndexByte(aName, ':'); i > -1 {
@@ -321,6 +320,10 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 		if pdebug.Enabled {
 			pdebug.Printf("Processing intSubset...")
 		}
+		// the first declaration is binding
+		if _, ok := doc.intSubset.LookupAttribute(local, prefix, eName); ok {
+			return nil
+		}
 		if _, err := ctx.addAttributeDecl(doc.intSubset, eName, local, prefix, AttributeType(typ), AttributeDefault(deftype), value, enum); err != nil {
 			return err
 		}
@@ -366,6 +369,12 @@ func (t *TreeBuilder) ElementDecl(ctxif sax.Context, name string, typ int, conte
 		return errors.New("sax.ElementDecl called while not in subset")
 	}
 
+	// declaring an element again makes the document invalid, but it still
+	// is well-formed
+	if decl, ok := dtd.GetElementDesc(name); ok && decl.decltype != UndefinedElementType {
+		return nil
+	}
+
 	_, err := dtd.AddElementDecl(name, ElementTypeVal(typ), content.(*ElementContent))
 	if err != nil {
 		return err
-- 
2.43.0


From 0f3641b084563246384504bfd69a62951001a273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:00 +0000
Subject: [PATCH 08/30] fix: check entity references, bound their expansion,
 keep entity content out of the document tree

---
 document.go         |  85 ++---
 dtd.go              |   4 +
 node.go             |   7 +-
 parser_interface.go |   1 +
 parserctx.go        | 873 +++++++++++++++++++-------------------------
 reference.go        |  19 +-
 tree.go             |  23 +-
 7 files changed, 463 insertions(+), 549 deletions(-)

diff --git a/document.go b/document.go
index 67287af..02f01b8 100644
--- a/document.go
+++ b/document.go
@@ -149,13 +149,9 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 		}
 
 		attr.setFirstChild(n)
-		for n != nil {
+		for ; n != nil; n = n.NextSibling() {
 			n.SetParent(attr)
-			x := n.NextSibling()
-			if x == nil {
-				n.setLastChild(x)
-			}
-			n = x
+			attr.setLastChild(n)
 		}
 	}
 	return attr, nil
@@ -263,24 +259,31 @@ func (d *Document) GetEntity(name string) (ent *Entity, found bool) {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into internal subset...")
 		}
-		ent, found = ints.LookupEntity(name)
-		return
+		if ent, found = ints.LookupEntity(name); found {
+			return
+		}
 	}
 
 	if exts := d.extSubset; exts != nil {
 		if pdebug.Enabled {
 			pdebug.Printf("Looking into external subset...")
 		}
-		ent, found = exts.LookupEntity(name)
-		return
+		if ent, found = exts.LookupEntity(name); found {
+			return
+		}
 	}
 
-	return
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		return ent, true
+	}
+	return nil, false
 }
 
 func (d *Document) GetParameterEntity(name string) (*Entity, bool) {
 	if ints := d.intSubset; ints != nil {
-		return ints.LookupParameterEntity(name)
+		if ent, ok := ints.LookupParameterEntity(name); ok {
+			return ent, true
+		}
 	}
 
 	if exts := d.extSubset; exts != nil {
@@ -324,6 +327,11 @@ func (d *Document) IsMixedElement(name string) (bool, error) {
  * Returns a pointer to the first child
  */
 func (d *Document) stringToNodeList(value string) (ret Node, err error) {
+	return d.stringToNodeListInternal(value, nil)
+}
+
+// expanding contains the entities that value is a part of the expansion of
+func (d *Document) stringToNodeListInternal(value string, expanding []*Entity) (ret Node, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START document.stringToNodeList '%s'", value)
 		defer func() {
@@ -339,9 +347,7 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 	rdr := strings.NewReader(value)
 	buf := bytes.Buffer{}
 	var last Node
-	var charval int32
 	var r rune
-	var r2 rune
 	for rdr.Len() > 0 {
 		r, _, err = rdr.ReadRune()
 		if err != nil {
@@ -360,35 +366,18 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 		if err != nil {
 			return
 		}
+		rdr.UnreadRune()
 
 		if r == '#' {
-			r2, _, err = rdr.ReadRune()
+			offset := len(value) - rdr.Len() - 1
+			var width int
+			r, width, err = parseStringCharRef([]byte(value[offset:]))
 			if err != nil {
 				return
 			}
-
-			var accumulator func(int32, rune) (int32, error)
-			if r2 == 'x' {
-				accumulator = accumulateHexCharRef
-			} else {
-				rdr.UnreadRune()
-				accumulator = accumulateDecimalCharRef
-			}
-			for {
-				r, _, err = rdr.ReadRune()
-				if err != nil {
-					return
-				}
-				if r == ';' {
-					break
-				}
-				charval, err = accumulator(charval, r)
-				if err != nil {
-					return
-				}
-			}
+			buf.WriteRune(r)
+			rdr.Seek(int64(offset+width), io.SeekStart)
 		} else {
-			rdr.UnreadRune()
 			entbuf := bytes.Buffer{}
 			for rdr.Len() > 0 {
 				r, _, err = rdr.ReadRune()
@@ -444,20 +433,21 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 
 				// no children
 				if ok && ent.FirstChild() == nil {
-					// XXX WTF am I doing here...?
+					for _, e := range expanding {
+						if e == ent {
+							err = errors.New("entity '" + val + "' refers to itself")
+							return
+						}
+					}
 					var refchildren Node
-					refchildren, err = d.stringToNodeList(string(node.Content()))
+					refchildren, err = d.stringToNodeListInternal(ent.content, append(expanding, ent))
 					if err != nil {
 						return
 					}
 					ent.setFirstChild(refchildren)
-					for n := refchildren; n != nil; {
+					for n := refchildren; n != nil; n = n.NextSibling() {
 						n.SetParent(ent)
-						if x := n.NextSibling(); x != nil {
-							n = x
-						} else {
-							n = nil
-						}
+						ent.setLastChild(n)
 					}
 				}
 
@@ -470,11 +460,6 @@ func (d *Document) stringToNodeList(value string) (ret Node, err error) {
 				}
 			}
 		}
-
-		if charval != 0 {
-			buf.WriteRune(rune(charval))
-			charval = 0
-		}
 	}
 
 	if buf.Len() > 0 {
diff --git a/dtd.go b/dtd.go
index 0bf7625..fbf80e7 100644
--- a/dtd.go
+++ b/dtd.go
@@ -34,6 +34,10 @@ func (dtd *DTD) AddEntity(name string, typ EntityType, publicID, systemID, conte
 		return nil, errors.Errorf("invalid entity type: %d", typ)
 	}
 
+	if _, ok := table[name]; ok {
+		return nil, errors.New("redefinition of entity " + name)
+	}
+
 	ent := newEntity(name, typ, publicID, systemID, content, "")
 	ent.doc = dtd.doc
 	table[name] = ent
diff --git a/node.go b/node.go
index 74c637c..0730993 100644
--- a/node.go
+++ b/node.go
@@ -70,6 +70,10 @@ func Walk(n Node, f WalkFunc) error {
 	if err := f(n); err != nil {
 		return err
 	}
+	// the children of a reference are a part of the DTD
+	if n.Type() == EntityRefNode {
+		return nil
+	}
 	for chld := n.FirstChild(); chld != nil; chld = chld.NextSibling() {
 		if err := Walk(chld, f); err != nil {
 			return err
@@ -265,7 +269,8 @@ func setTreeDoc(n Node, doc *Document) {
 			}
 		}
 	}
-	if child := n.FirstChild(); child != nil {
+	// the children of a reference are a part of the DTD
+	if child := n.FirstChild(); child != nil && n.Type() != EntityRefNode {
 		setListDoc(child, doc)
 	}
 	n.SetOwnerDocument(doc)
diff --git a/parser_interface.go b/parser_interface.go
index a3e85bb..1b79323 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -132,6 +132,7 @@ type parserCtx struct {
 	version           string
 	attsSpecial       map[string]AttributeType
 	attsDefault       map[string][]*attrData
+	limits            *entityLimits
 	valid             bool
 	hasPERefs         bool
 	invalidInput      bool // true if the input could not be decoded to its end
diff --git a/parserctx.go b/parserctx.go
index 71a898a..20990be 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -220,6 +220,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string][]*attrData{}
+	ctx.limits = &entityLimits{expansions: map[*Entity]*entityExpansion{}}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -407,6 +408,7 @@ func (ctx *parserCtx) switchEncoding() error {
 	if len(text) == 0 {
 		return errors.New("empty document")
 	}
+	ctx.limits.inputSize = len(text)
 
 	// Anything but the UTF-16 flavors starts out in ASCII
 	decoded := false
@@ -530,6 +532,8 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(errors.New("unexpected EOF"))
 		}
 		ctx.inSubset = notInSubset
+		// all of the entities are known from now on
+		ctx.limits.expansions = map[*Entity]*entityExpansion{}
 
 		ctx.cleanSpecialAttributes()
 
@@ -822,11 +826,17 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 			if ctx.hasNSDecl("", nbNs) {
 				return false, ctx.error(ErrDuplicateAttribute)
 			}
+			if attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef); err != nil {
+				return false, ctx.error(err)
+			}
 			ctx.pushNS("", attvalue)
 			nbNs++
 			continue
 		} else if aprefix == XMLNsPrefix {
 			// <elem xmlns:foo="...">
+			if attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef); err != nil {
+				return false, ctx.error(err)
+			}
 			if attname == XMLPrefix { // xmlns:xml
 				if attvalue != XMLNamespace {
 					return false, ctx.error(errors.New("xml namespace prefix mapped to wrong URI"))
@@ -1051,13 +1061,18 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 				}
 			} else {
 				var ent *Entity
-				ent, err = ctx.parseEntityRef()
+				var name string
+				ent, name, err = ctx.parseEntityRef()
 				if err != nil {
 					err = ctx.error(err)
 					return
 				}
 
-				if ent.entityType == InternalPredefinedEntity {
+				if ent == nil { // undeclared, but that's not an error
+					b.WriteString("&")
+					b.WriteString(name)
+					b.WriteString(";")
+				} else if ent.entityType == InternalPredefinedEntity {
 					if ent.content == "&" && !ctx.replaceEntities {
 						b.WriteString("&#38;")
 					} else {
@@ -1080,7 +1095,7 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 					}
 				} else {
 					b.WriteString("&")
-					b.WriteString(ent.name)
+					b.WriteString(name)
 					b.WriteString(";")
 				}
 			}
@@ -2252,9 +2267,6 @@ func (ctx *parserCtx) parsePEReference() error {
 		                 name, NULL);
 		*/
 		ctx.valid = false
-		if err := ctx.entityCheck(entity, 0, 0); err != nil {
-			return ctx.error(err)
-		}
 	} else {
 		/*
 		 * Internal checking in case the entity quest barfed
@@ -2852,16 +2864,35 @@ func (ctx *parserCtx) parseEntityValueInternal(qch rune) (string, error) {
 	buf := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(buf)
 
-	i := 0
-	for c := cur.PeekN(i + 1); isChar(c) && c != qch; c = cur.PeekN(i + 1) {
+	for c := cur.Peek(); isChar(c) && c != qch; c = cur.Peek() {
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
 	}
-	if i > 0 {
-		cur.Advance(i)
-		return buf.String(), nil
+	return buf.String(), nil
+}
+
+// checkEntityValue makes sure that all of the ampersands in the literal
+// of an entity start a reference
+func checkEntityValue(literal string) error {
+	for {
+		i := strings.IndexByte(literal, '&')
+		if i < 0 {
+			return nil
+		}
+		literal = literal[i+1:]
+		// character references are checked when they are decoded
+		if strings.HasPrefix(literal, "#") {
+			continue
+		}
+		_, width, err := parseStringName([]byte(literal))
+		if err != nil {
+			return ErrNameRequired
+		}
+		literal = literal[width:]
+		if !strings.HasPrefix(literal, ";") {
+			return ErrSemicolonRequired
+		}
 	}
-	return "", nil
 }
 
 /*
@@ -2893,7 +2924,6 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 	defer releaseBuffer(out)
 
 	for len(s) > 0 {
-		pdebug.Printf("s[0] -> %c", s[0])
 		if bytes.HasPrefix(s, []byte{'&', '#'}) {
 			val, width, err := parseStringCharRef(s)
 			if err != nil {
@@ -2906,8 +2936,10 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
-				return "", err
+			if ent == nil { // undeclared, but that's not an error
+				out.Write(s[:width])
+				s = s[width:]
+				continue
 			}
 
 			if EntityType(ent.EntityType()) == InternalPredefinedEntity {
@@ -2920,10 +2952,11 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				if err != nil {
 					return "", err
 				}
+				if err := ctx.entityCheck(len(rep)); err != nil {
+					return "", err
+				}
 
 				out.WriteString(rep)
-			} else {
-				out.WriteString(ent.Name())
 			}
 			s = s[width:]
 		} else if s[0] == '%' && what&SubstitutePERef == SubstitutePERef {
@@ -2931,13 +2964,17 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
-			if err := ctx.entityCheck(ent, width, 0); err != nil {
-				return "", err
+			if ent == nil { // undeclared, but that's not an error
+				s = s[width:]
+				continue
 			}
 			rep, err := ctx.decodeEntitiesInternal(ent.Content(), what, depth+1)
 			if err != nil {
 				return "", err
 			}
+			if err := ctx.entityCheck(len(rep)); err != nil {
+				return "", err
+			}
 			out.WriteString(rep)
 			s = s[width:]
 		} else {
@@ -2967,6 +3004,12 @@ func (ctx *parserCtx) parseEntityValue() (string, string, error) {
 	literal, err := ctx.parseQuotedText(func(qch rune) (string, error) {
 		return ctx.parseEntityValueInternal(qch)
 	})
+	if err != nil {
+		return "", "", ctx.error(err)
+	}
+	if err := checkEntityValue(literal); err != nil {
+		return "", "", ctx.error(err)
+	}
 
 	val, err := ctx.decodeEntities([]byte(literal), SubstitutePERef)
 	if err != nil {
@@ -3042,6 +3085,16 @@ func (ctx *parserCtx) parseEntityDecl() error {
 	var value string
 	var uri string
 
+	// the first declaration is binding
+	declared := false
+	if doc := ctx.doc; doc != nil && doc.intSubset != nil {
+		if isParameter {
+			_, declared = doc.intSubset.LookupParameterEntity(name)
+		} else {
+			_, declared = doc.intSubset.LookupEntity(name)
+		}
+	}
+
 	if isParameter {
 		if pdebug.Enabled {
 			pdebug.Printf("Found parameter entity")
@@ -3055,21 +3108,22 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			if pdebug.Enabled {
 				pdebug.Printf("entity declaration '%s' -> '%s'", name, value)
 			}
+			if err != nil {
+				return ctx.error(err)
+			}
 
-			if err == nil {
-				switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return ctx.error(err)
-				}
+			switch err := ctx.fireSAXCallback(cbEntityDecl, name, value); err {
+			case nil, sax.ErrHandlerUnspecified:
+				// no op
+			default:
+				return ctx.error(err)
 			}
 		} else {
 			if pdebug.Enabled {
 				pdebug.Printf("Attempting to parse external ID")
 			}
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3099,19 +3153,20 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 		if c := cur.Peek(); c == '"' || c == '\'' {
 			literal, value, err = ctx.parseEntityValue()
-			if err == nil {
-				if s := ctx.sax; s != nil {
-					switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return ctx.error(err)
-					}
+			if err != nil {
+				return ctx.error(err)
+			}
+			if s := ctx.sax; s != nil {
+				switch err := s.EntityDecl(ctx.userData, name, int(InternalGeneralEntity), "", "", value); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return ctx.error(err)
 				}
 			}
 		} else {
 			literal, uri, err = ctx.parseExternalID()
-			if err != nil {
+			if err != nil || (literal == "" && uri == "") {
 				return ctx.error(ErrValueRequired)
 			}
 
@@ -3196,7 +3251,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 		}
 	}
 
-	pdebug.Printf("============================")
+
 
 	ctx.skipBlanks()
 	if cur.Peek() != '>' {
@@ -3222,7 +3277,7 @@ func (ctx *parserCtx) parseEntityDecl() error {
 			*/
 		}
 	}
-	if curent != nil {
+	if curent != nil && !declared {
 		curent.SetOrig(literal)
 	}
 
@@ -3936,6 +3991,16 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx := &parserCtx{}
 	newctx.init(nil, bytes.NewReader(chunk))
 	defer newctx.release()
+	newctx.limits = ctx.limits
+	newctx.options = ctx.options
+	newctx.keepBlanks = ctx.keepBlanks
+	newctx.pedantic = ctx.pedantic
+	newctx.loadsubset = ctx.loadsubset
+	newctx.standalone = ctx.standalone
+	newctx.hasExternalSubset = ctx.hasExternalSubset
+	newctx.hasPERefs = ctx.hasPERefs
+	newctx.attsSpecial = ctx.attsSpecial
+	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 
 	if userData != nil {
 		newctx.userData = userData
@@ -3947,19 +4012,10 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		ctx.doc = NewDocument("1.0", "", StandaloneExplicitNo)
 	}
 
-	// save the document's children
-	fc := ctx.doc.FirstChild()
-	lc := ctx.doc.LastChild()
-	ctx.doc.setFirstChild(nil)
-	ctx.doc.setLastChild(nil)
-	defer func() {
-		ctx.doc.setFirstChild(fc)
-		ctx.doc.setLastChild(lc)
-	}()
 	newctx.doc = ctx.doc
 	newctx.sax = ctx.sax
 	newctx.attsDefault = ctx.attsDefault
-	newctx.depth = ctx.depth + 1
+	newctx.depth = ctx.depth
 
 	// create a dummy node
 	newRoot, err := newctx.doc.CreateElement("pseudoroot")
@@ -3967,7 +4023,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, ctx.error(err)
 	}
 	newctx.pushNode(newRoot)
-	newctx.doc.AddChild(newRoot)
+	newctx.elem = newRoot
 	newctx.pushText(chunk)
 	if err := newctx.parseContent(); err != nil {
 		return nil, err
@@ -3980,14 +4036,12 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		return nil, newctx.error(ErrInvalidChar)
 	}
 
-	if child := newctx.doc.FirstChild(); child != nil {
-		if grandchild := child.FirstChild(); grandchild != nil {
-			for e := grandchild; e != nil; e = e.NextSibling() {
-				e.SetTreeDoc(ctx.doc)
-				e.SetParent(nil)
-			}
-			return grandchild, nil
+	if child := newRoot.FirstChild(); child != nil {
+		for e := child; e != nil; e = e.NextSibling() {
+			e.SetTreeDoc(ctx.doc)
+			e.SetParent(nil)
 		}
+		return child, nil
 	}
 
 	// this means that the parsing was successful, but there weren't
@@ -4038,14 +4092,15 @@ func (ctx *parserCtx) parseReference() error {
 	}
 
 	// &...
-	ent, err := ctx.parseEntityRef()
+	ent, _, err := ctx.parseEntityRef()
 	if err != nil {
 		return ctx.error(err)
 	}
+	if ent == nil { // undeclared, but that's not an error
+		return nil
+	}
 	// if !ctx.wellFormed { return } ??
 
-	wasChecked := ent.checked
-
 	// special case for predefined entities
 	if ent.name == "" || EntityType(ent.EntityType()) == InternalPredefinedEntity {
 		if ent.content == "" {
@@ -4062,295 +4117,68 @@ func (ctx *parserCtx) parseReference() error {
 		return nil
 	}
 
-	// The first reference to the entity trigger a parsing phase
-	// where the ent->children is filled with the result from
-	// the parsing.
+	if ctx.replaceEntities {
+		return ctx.error(ErrUnimplemented{target: "parseReference"})
+	}
+
+	// References to internal entities provide the content of the entity to
+	// the application, and the first one triggers filling ent->children with
+	// the result from the parsing.
 	// Note: external parsed entities will not be loaded, it is not
-	// required for a non-validating parser, unless the parsing option
-	// of validating, or substituting entities were given. Doing so is
-	// far more secure as the parser will only process data coming from
-	// the document entity by default.
-	var parsedEnt Node
-	if (wasChecked == 0 || (ent.firstChild == nil && ctx.options.IsSet(ParseNoEnt))) && (EntityType(ent.EntityType()) != ExternalGeneralParsedEntity || ctx.options.IsSet(ParseNoEnt|ParseDTDValid)) {
+	// required for a non-validating parser. Doing so is far more secure
+	// as the parser will only process data coming from the document entity.
+	if EntityType(ent.EntityType()) == InternalGeneralEntity {
 		var userData interface{}
 		if ctx.userData != ctx {
 			userData = ctx.userData
 		}
 
-		if EntityType(ent.EntityType()) == InternalGeneralEntity {
-			parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
-			}
-		} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-			parsedEnt, err = ctx.parseExternalEntityPrivate(ent.uri, ent.externalID)
-			switch err {
-			case nil, ErrParseSucceeded:
-				// may not have generated nodes, but parse was successful
-			default:
-				return err
+		// the entities in the content of an entity are already accounted for
+		if ctx.depth == 0 {
+			if err := ctx.entityCheck(ctx.expandEntity(ent, 0).size); err != nil {
+				return ctx.error(err)
 			}
-		} else {
-			return errors.New("invalid entity type")
 		}
 
-		/*
-		           // Store the number of entities needing parsing for this entity
-		           // content and do checkings
-		           ent->checked = (ctxt->nbentities - oldnbent + 1) * 2;
-		           if ((ent->content != NULL) && (xmlStrchr(ent->content, '<')))
-		               ent->checked |= 1;
-		           if (ret == XML_ERR_ENTITY_LOOP) {
-		               xmlFatalErr(ctxt, XML_ERR_ENTITY_LOOP, NULL);
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-		           if (xmlParserEntityCheck(ctxt, 0, ent, 0)) {
-		               xmlFreeNodeList(list);
-		               return;
-		           }
-
-		           if ((ret == XML_ERR_OK) && (list != NULL)) {
-		               if (((ent->etype == XML_INTERNAL_GENERAL_ENTITY) ||
-		                (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY))&&
-		                   (ent->children == NULL)) {
-		                   ent->children = list;
-		                   if (ctxt->replaceEntities) {
-		                       // Prune it directly in the generated document
-		                       // except for single text nodes.
-		                       if (((list->type == XML_TEXT_NODE) &&
-		                            (list->next == NULL)) ||
-		                           (ctxt->parseMode == XML_PARSE_READER)) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           list = NULL;
-		                           ent->owner = 1;
-		                       } else {
-		                           ent->owner = 0;
-		                           while (list != NULL) {
-		                               list->parent = (xmlNodePtr) ctxt->node;
-		                               list->doc = ctxt->myDoc;
-		                               if (list->next == NULL)
-		                                   ent->last = list;
-		                               list = list->next;
-		                           }
-		                           list = ent->children;
-		   #ifdef LIBXML_LEGACY_ENABLED
-		                           if (ent->etype == XML_EXTERNAL_GENERAL_PARSED_ENTITY)
-		                             xmlAddEntityReference(ent, list, NULL);
-		   #endif
-		                       }
-		                   } else {
-		                       ent->owner = 1;
-		                       while (list != NULL) {
-		                           list->parent = (xmlNodePtr) ent;
-		                           xmlSetTreeDoc(list, ent->doc);
-		                           if (list->next == NULL)
-		                               ent->last = list;
-		                           list = list->next;
-		                       }
-		                   }
-		               } else {
-		                   xmlFreeNodeList(list);
-		                   list = NULL;
-		               }
-		           } else if ((ret != XML_ERR_OK) &&
-		                      (ret != XML_WAR_UNDECLARED_ENTITY)) {
-		               xmlFatalErrMsgStr(ctxt, XML_ERR_UNDECLARED_ENTITY,
-		                        "Entity '%s' failed to parse\n", ent->name);
-		               xmlParserEntityCheck(ctxt, 0, ent, 0);
-		           } else if (list != NULL) {
-		               xmlFreeNodeList(list);
-		               list = NULL;
-		           }
-		           if (ent->checked == 0)
-		               ent->checked = 2;
-		       } else if (ent->checked != 1) {
-		           ctxt->nbentities += ent->checked / 2;
-		       }
-		*/
-
-		// Now that the entity content has been gathered
-		// provide it to the application, this can take different forms based
-		// on the parsing modes.
-		if ent.firstChild == nil {
-			// Probably running in SAX mode and the callbacks don't
-			// build the entity content. So unless we already went
-			// though parsing for first checking go though the entity
-			// content to generate callbacks associated to the entity
-			if wasChecked != 0 {
-				var userData interface{}
-				if ctx.userData != ctx {
-					userData = ctx.userData
-				}
-				if EntityType(ent.EntityType()) == InternalGeneralEntity {
-					parsedEnt, err = ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else if EntityType(ent.EntityType()) == ExternalGeneralParsedEntity {
-					parsedEnt, err = ctx.parseExternalEntityPrivate(ent.URI(), ent.externalID)
-					switch err {
-					case nil, ErrParseSucceeded:
-						// may not have generated nodes, but parse was successful
-					default:
-						return err
-					}
-				} else {
-					return errors.New("invalid entity type")
-				}
-			}
-			if s := ctx.sax; s != nil && !ctx.replaceEntities {
-				// Entity reference callback comes second, it's somewhat
-				// superfluous but a compatibility to historical behaviour
-				switch err := s.Reference(ctx.userData, ent.name); err {
-				case nil, sax.ErrHandlerUnspecified:
-					// no op
-				default:
-					return err
-				}
+		parsedEnt, err := ctx.parseBalancedChunkInternal([]byte(ent.Content()), userData)
+		switch err {
+		case nil, ErrParseSucceeded:
+			// may not have generated nodes, but parse was successful
+		default:
+			// the error is located where the entity was referred to
+			if pe, ok := err.(ErrParseError); ok {
+				err = pe.Err
 			}
-			return nil
+			return ctx.error(err)
 		}
 
-		// If we didn't get any children for the entity being built
-		if s := ctx.sax; s != nil && !ctx.replaceEntities {
-			// Create a node.
-			switch err := s.Reference(ctx.userData, ent.name); err {
-			case nil, sax.ErrHandlerUnspecified:
-				// no op
-			default:
-				return err
+		if ent.firstChild == nil && parsedEnt != nil {
+			ent.setFirstChild(parsedEnt)
+			for n := parsedEnt; n != nil; n = n.NextSibling() {
+				n.SetParent(ent)
+				ent.setLastChild(n)
 			}
-			return nil
 		}
-		_ = parsedEnt
 
-		/*
-			if ctx.replaceEntities || ent.firstChild == nil {
-			           // There is a problem on the handling of _private for entities
-			           // (bug 155816): Should we copy the content of the field from
-			           // the entity (possibly overwriting some value set by the user
-			           // when a copy is created), should we leave it alone, or should
-			           // we try to take care of different situations?  The problem
-			           // is exacerbated by the usage of this field by the xmlReader.
-			           // To fix this bug, we look at _private on the created node
-			           // and, if it's NULL, we copy in whatever was in the entity.
-			           // If it's not NULL we leave it alone.  This is somewhat of a
-			           // hack - maybe we should have further tests to determine
-			           // what to do.
-				if ctx.peekNode() == nil && ent.firstChild == nil {
-			               // Seems we are generating the DOM content, do
-			               // a simple tree copy for all references except the first
-			               // In the first occurrence list contains the replacement.
-					if (parsedEnt == nil && ent.owner == nil) || ctx.parseMode == ParseReaderMode {
-
-
-
-			               if (((list == NULL) && (ent->owner == 0)) ||
-			                   (ctxt->parseMode == XML_PARSE_READER)) {
-			                   xmlNodePtr nw = NULL, cur, firstChild = NULL;
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // when operating on a reader, the entities definitions
-			                   // are always owning the entities subtree.
-			                   // if (ctxt->parseMode == XML_PARSE_READER)
-			                   //    ent->owner = 1;
-			                   cur = ent->children;
-			                   while (cur != NULL) {
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = nw;
-			                           }
-			                           nw = xmlAddChild(ctxt->node, nw);
-			                       }
-			                       if (cur == ent->last) {
-			                           // needed to detect some strange empty
-			                           // node cases in the reader tests
-			                           if ((ctxt->parseMode == XML_PARSE_READER) &&
-			                               (nw != NULL) &&
-			                               (nw->type == XML_ELEMENT_NODE) &&
-			                               (nw->children == NULL))
-			                               nw->extra = 1;
-
-			                           break;
-			                       }
-			                       cur = cur->next;
-			                   }
-			               } else if ((list == NULL) || (ctxt->inputNr > 0)) {
-			                   xmlNodePtr nw = NULL, cur, next, last,
-			                              firstChild = NULL;
-
-			                   // We are copying here, make sure there is no abuse
-			                   ctxt->sizeentcopy += ent->length + 5;
-			                   if (xmlParserEntityCheck(ctxt, 0, ent, ctxt->sizeentcopy))
-			                       return;
-
-			                   // Copy the entity child list and make it the new
-			                   // entity child list. The goal is to make sure any
-			                   // ID or REF referenced will be the one from the
-			                   // document content and not the entity copy.
-			                   cur = ent->children;
-			                   ent->children = NULL;
-			                   last = ent->last;
-			                   ent->last = NULL;
-			                   while (cur != NULL) {
-			                       next = cur->next;
-			                       cur->next = NULL;
-			                       cur->parent = NULL;
-			                       nw = xmlDocCopyNode(cur, ctxt->myDoc, 1);
-			                       if (nw != NULL) {
-			                           if (nw->_private == NULL)
-			                               nw->_private = cur->_private;
-			                           if (firstChild == NULL){
-			                               firstChild = cur;
-			                           }
-			                           xmlAddChild((xmlNodePtr) ent, nw);
-			                           xmlAddChild(ctxt->node, cur);
-			                       }
-			                       if (cur == last)
-			                           break;
-			                       cur = next;
-			                   }
-			                   if (ent->owner == 0)
-			                       ent->owner = 1;
-			               } else {
-			                   const xmlChar *nbktext;
-			                   // the name change is to avoid coalescing of the
-			                   // node with a possible previous text one which
-			                   // would make ent->children a dangling pointer
-			                   nbktext = xmlDictLookup(ctxt->dict, BAD_CAST "nbktext",
-			                                           -1);
-			                   if (ent->children->type == XML_TEXT_NODE)
-			                       ent->children->name = nbktext;
-			                   if ((ent->last != ent->children) &&
-			                       (ent->last->type == XML_TEXT_NODE))
-			                       ent->last->name = nbktext;
-			                   xmlAddChildList(ctxt->node, ent->children);
-			               }
-
-			               // This is to avoid a nasty side effect, see
-			               // characters() in SAX.c
-			               ctxt->nodemem = 0;
-			               ctxt->nodelen = 0;
-			               return;
-			           }
-			       }
-		*/
+		if ent.checked == 0 {
+			ent.checked = 2
+		}
+		if strings.IndexByte(ent.content, '<') > -1 {
+			ent.checked |= 1
+		}
 	}
 
-	return ErrUnimplemented{target: "parseReference"}
+	if s := ctx.sax; s != nil {
+		// Entity reference callback comes second, it's somewhat
+		// superfluous but a compatibility to historical behaviour
+		switch err := s.Reference(ctx.userData, ent.name); err {
+		case nil, sax.ErrHandlerUnspecified:
+			// no op
+		default:
+			return ctx.error(err)
+		}
+	}
+	return nil
 }
 
 func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
@@ -4359,6 +4187,9 @@ func accumulateDecimalCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid decimal CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4372,6 +4203,9 @@ func accumulateHexCharRef(val int32, c rune) (int32, error) {
 	} else {
 		return 0, errors.New("invalid hex CharRef")
 	}
+	if val > unicode.MaxRune {
+		return 0, errors.New("CharRef out of range")
+	}
 	return val, nil
 }
 
@@ -4396,7 +4230,7 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 	s = s[2:]
 
 	var accumulator func(int32, rune) (int32, error)
-	if s[0] == 'x' {
+	if len(s) > 0 && s[0] == 'x' {
 		s = s[1:]
 		width++
 		accumulator = accumulateHexCharRef
@@ -4404,27 +4238,23 @@ func parseStringCharRef(s []byte) (r rune, width int, err error) {
 		accumulator = accumulateDecimalCharRef
 	}
 
-	for c := s[0]; c != ';'; c = s[0] {
-		val, err = accumulator(val, rune(c))
+	for len(s) > 0 && s[0] != ';' {
+		val, err = accumulator(val, rune(s[0]))
 		if err != nil {
 			width = 0
 			return
 		}
-		if rune(val) > unicode.MaxRune {
-			err = errors.New("hex CharRef out of range")
-			width = 0
-			return
-		}
 
 		s = s[1:]
 		width++
 	}
 
-	if s[0] == ';' {
-		s = s[1:]
-		width++
+	if len(s) == 0 {
+		return utf8.RuneError, 0, ErrSemicolonRequired
 	}
+	width++
 
+	// note: without any digits the value is 0, which is not a character
 	r = rune(val)
 	if !isChar(val) {
 		return utf8.RuneError, 0, fmt.Errorf("invalid XML char value %d", val)
@@ -4452,10 +4282,6 @@ func parseStringName(s []byte) (string, int, error) {
 
 	for {
 		r, w = utf8.DecodeRune(s)
-		if r == utf8.RuneError {
-			return "", 0, errors.New("rune decode failed")
-		}
-
 		if !isNameChar(r) {
 			break
 		}
@@ -4473,31 +4299,17 @@ func parseStringName(s []byte) (string, int, error) {
 // the rest of the processing to work.
 func (ctx *parserCtx) getEntity(name string) (*Entity, error) {
 	if ctx.inSubset == 0 {
-		if ret, err := resolvePredefinedEntity(name); err != nil {
+		if ret, err := resolvePredefinedEntity(name); err == nil {
 			return ret, nil
 		}
 	}
 
-	var ret *Entity
-	var ok bool
-	if ctx.doc == nil || ctx.doc.standalone != 1 {
-		ret, _ = ctx.doc.GetEntity(name)
-	} else {
-		if ctx.inSubset == 2 {
-			ctx.doc.standalone = 0
-			ret, _ = ctx.doc.GetEntity(name)
-			ctx.doc.standalone = 1
-		} else {
-			ret, ok = ctx.doc.GetEntity(name)
-			if !ok {
-				ctx.doc.standalone = 0
-				ret, ok = ctx.doc.GetEntity(name)
-				if !ok {
-					return nil, errors.New("Entity(" + name + ") document marked standalone but requires eternal subset")
-				}
-				ctx.doc.standalone = 1
-			}
-		}
+	if ctx.doc == nil {
+		return nil, ErrEntityNotFound
+	}
+	ret, ok := ctx.doc.GetEntity(name)
+	if !ok {
+		return nil, ErrEntityNotFound
 	}
 	/*
 	   if ((ret != NULL) &&
@@ -4540,8 +4352,9 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	if len(s) == 0 || s[0] != '&' {
 		return nil, 0, errors.New("invalid entity ref")
 	}
+	s = s[1:]
 
-	i := 0
+	i := 1
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, errors.New("failed to parse name")
@@ -4549,32 +4362,21 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	s = s[width:]
 	i += width
 
-	if s[0] != ';' {
+	if len(s) == 0 || s[0] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
 	s = s[1:]
 	i++
 
-	var loadedEnt sax.Entity
+	if ent, err := resolvePredefinedEntity(name); err == nil {
+		return ent, i, nil
+	}
 
 	/*
 	 * Ask first SAX for entity resolution, otherwise try the
 	 * entities which may have stored in the parser context.
 	 */
-	if h := ctx.sax; h != nil {
-		loadedEnt, err = h.GetEntity(ctx.userData, name)
-		if err != nil {
-			// Note: libxml2 would try to ask for xmlGetPredefinedEntity
-			// next, but that's only when XML_PARSE_OLDSAX is enabled.
-			// we won't do that.
-			if ctx.wellFormed && ctx.userData == ctx {
-				loadedEnt, err = ctx.getEntity(name)
-				if err != nil {
-					return nil, 0, err
-				}
-			}
-		}
-	}
+	loadedEnt := ctx.loadEntity(name)
 	/*
 	 * [ WFC: Entity Declared ]
 	 * In a document without any DTD, a document with only an
@@ -4597,10 +4399,10 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	 * standalone='yes'.
 	 */
 	if loadedEnt == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs) {
+		if ctx.mustDeclareEntities() {
 			return nil, 0, fmt.Errorf("entity '%s' not defined", name)
 		}
-		// xmlParserEntityCheck ?!
+		return nil, i, nil
 	}
 
 	/*
@@ -4628,7 +4430,7 @@ func (ctx *parserCtx) parseStringEntityRef(s []byte) (sax.Entity, int, error) {
 	 * indirectly in an attribute value (other than "&lt;") must
 	 * not contain a <.
 	 */
-	if ctx.instate == psAttributeValue && len(loadedEnt.Content()) > 0 && EntityType(loadedEnt.EntityType()) == InternalPredefinedEntity && bytes.IndexByte(loadedEnt.Content(), '<') > -1 {
+	if ctx.instate == psAttributeValue && len(loadedEnt.Content()) > 0 && EntityType(loadedEnt.EntityType()) != InternalPredefinedEntity && bytes.IndexByte(loadedEnt.Content(), '<') > -1 {
 		return nil, 0, fmt.Errorf("'<' in entity '%s' is not allowed in attribute values", name)
 	}
 
@@ -4648,8 +4450,9 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	if len(s) == 0 || s[0] != '%' {
 		return nil, 0, errors.New("invalid PEreference")
 	}
+	s = s[1:]
 
-	i := 0
+	i := 1
 	name, width, err := parseStringName(s)
 	if err != nil {
 		return nil, 0, err
@@ -4657,7 +4460,7 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 	s = s[width:]
 	i += width
 
-	if s[0] != ';' {
+	if len(s) == 0 || s[0] != ';' {
 		return nil, 0, ErrSemicolonRequired
 	}
 	s = s[1:]
@@ -4665,9 +4468,8 @@ func (ctx *parserCtx) parseStringPEReference(s []byte) (sax.Entity, int, error)
 
 	var loadedEnt sax.Entity
 	if h := ctx.sax; h != nil {
-		loadedEnt, err = h.GetParameterEntity(ctx.userData, name)
-		if err != nil {
-			return nil, 0, err
+		if loadedEnt, err = h.GetParameterEntity(ctx.userData, name); err != nil {
+			loadedEnt = nil
 		}
 	}
 
@@ -4726,41 +4528,31 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
 	}
 	if cur.ConsumeString("&#x") {
 		for c := cur.Peek(); !cur.Done() && c != ';'; c = cur.Peek() {
-			if c >= '0' && c <= '9' {
-				val = val*16 + (c - '0')
-			} else if c >= 'a' && c <= 'f' {
-				val = val*16 + (c - 'a') + 10
-			} else if c >= 'A' && c <= 'F' {
-				val = val*16 + (c - 'A') + 10
-			} else {
-				err = errors.New("invalid hex CharRef")
+			if val, err = accumulateHexCharRef(val, c); err != nil {
 				return
 			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
-		}
 	} else if cur.ConsumeString("&#") {
-		for !cur.Done() && cur.Peek() != ';' {
-			c := cur.Peek()
-			if c >= '0' && c <= '9' {
-				val = val*10 + (c - '0')
-			} else {
-				err = errors.New("invalid decimal CharRef")
+		for c := cur.Peek(); !cur.Done() && c != ';'; c = cur.Peek() {
+			if val, err = accumulateDecimalCharRef(val, c); err != nil {
 				return
 			}
 			cur.Advance(1)
 		}
-		if cur.Peek() == ';' {
-			cur.Advance(1)
-		}
 	} else {
 		err = errors.New("invalid char ref")
 		return
 	}
 
-	if isChar(val) && val <= unicode.MaxRune {
+	if cur.Peek() != ';' {
+		err = ErrSemicolonRequired
+		return
+	}
+	cur.Advance(1)
+
+	// note: without any digits the value is 0, which is not a character
+	if isChar(val) {
 		r = rune(val)
 		return
 	}
@@ -4792,9 +4584,10 @@ func (ctx *parserCtx) parseCharRef() (r rune, err error) {
  * [ WFC: Parsed Entity ]
  * An entity reference must not contain the name of an unparsed entity
  *
- * Returns the xmlEntityPtr if found, or NULL otherwise.
+ * Returns the entity and its name. The entity is nil if it is not
+ * declared, and that is not an error.
  */
-func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
+func (ctx *parserCtx) parseEntityRef() (ent *Entity, name string, err error) {
 	if pdebug.Enabled {
 		g := pdebug.IPrintf("START parseEntityRef")
 		defer func() {
@@ -4812,7 +4605,7 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	}
 	cur.Advance(1)
 
-	name, err := ctx.parseName()
+	name, err = ctx.parseName()
 	if err != nil {
 		err = ctx.error(ErrNameRequired)
 		return
@@ -4827,20 +4620,8 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	if ent, err = resolvePredefinedEntity(name); err == nil {
 		return
 	}
-
-	if s := ctx.sax; s != nil {
-		// ask the SAX2 handler nicely
-		var loadedEnt sax.Entity
-		loadedEnt, err = s.GetEntity(ctx.userData, name)
-		if err == nil {
-			ent = loadedEnt.(*Entity)
-			return
-		}
-
-		if loadedEnt == nil && ctx == ctx.userData {
-			ent, _ = ctx.getEntity(name)
-		}
-	}
+	err = nil
+	ent = ctx.loadEntity(name)
 
 	// [ WFC: Entity Declared ]
 	// In a document without any DTD, a document with only an
@@ -4862,91 +4643,196 @@ func (ctx *parserCtx) parseEntityRef() (ent *Entity, err error) {
 	// declared is a well-formedness constraint only if
 	// standalone='yes'.
 	if ent == nil {
-		if ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && ctx.hasPERefs) {
-			return nil, ctx.error(ErrUndeclaredEntity)
-		} else {
-			if ctx.inSubset == 0 {
-				if s := ctx.sax; s != nil {
-					switch err := s.Reference(ctx.userData, name); err {
-					case nil, sax.ErrHandlerUnspecified:
-						// no op
-					default:
-						return nil, ctx.error(err)
-					}
+		if ctx.mustDeclareEntities() {
+			return nil, name, ctx.error(ErrUndeclaredEntity)
+		}
+		if ctx.inSubset == 0 && ctx.instate != psAttributeValue {
+			if s := ctx.sax; s != nil {
+				switch err := s.Reference(ctx.userData, name); err {
+				case nil, sax.ErrHandlerUnspecified:
+					// no op
+				default:
+					return nil, name, ctx.error(err)
 				}
 			}
-			// ent is nil, no? why check?
-			if err := ctx.entityCheck(ent, 0, 0); err != nil {
-				return nil, ctx.error(err)
-			}
-			ctx.valid = false
 		}
-	} else if ent.entityType == ExternalGeneralUnparsedEntity {
+		ctx.valid = false
+		return nil, name, nil
+	}
+
+	switch ent.entityType {
+	case ExternalGeneralUnparsedEntity:
 		// [ WFC: Parsed Entity ]
 		// An entity reference must not contain the name of an
 		// unparsed entity
-		return nil, ctx.error(errors.New("entity reference to unparsed entity"))
-	} else if ctx.instate == psAttributeValue && ent.entityType == ExternalGeneralParsedEntity {
-		// [ WFC: No External Entity References ]
-		// Attribute values cannot contain direct or indirect
-		// entity references to external entities.
-		return nil, ctx.error(errors.New("attribute references external entity"))
-	} else if ctx.instate == psAttributeValue && ent.entityType != InternalPredefinedEntity {
-		// [ WFC: No < in Attribute Values ]
-		// The replacement text of any entity referred to directly or
-		// indirectly in an attribute value (other than "&lt;") must
-		// not contain a <.
-		if (ent.checked&1 == 1 || ent.checked == 0) && ent.content != "" && strings.IndexByte(ent.content, '<') > -1 {
-			return nil, ctx.error(errors.New("'<' in entity is not allowed in attribute values"))
-		}
-	} else {
+		return nil, name, ctx.error(errors.New("entity reference to unparsed entity"))
+	case InternalParameterEntity, ExternalParameterEntity:
 		// Internal check, no parameter entities here ...
-		switch ent.entityType {
-		case InternalParameterEntity:
-		case ExternalParameterEntity:
-			return nil, ctx.error(errors.New("attempt to reference the parameter entity"))
-		}
+		return nil, name, ctx.error(errors.New("attempt to reference the parameter entity"))
 	}
 
-	if ent == nil {
-		panic("at the end of parseEntityRef, ent == nil")
+	if ctx.instate == psAttributeValue {
+		if err := ctx.checkEntityInAttribute(ent); err != nil {
+			return nil, name, ctx.error(err)
+		}
 	}
+
 	// [ WFC: No Recursion ]
 	// A parsed entity must not contain a recursive reference
 	// to itself, either directly or indirectly.
 	// Done somewhere else
-	return ent, nil
+	return ent, name, nil
 }
 
-/* Function to check non-linear entity expansion behaviour
- * This is here to detect and stop exponential linear entity expansion
- * This is not a limitation of the parser but a safety
- * boundary feature. It can be disabled with the XML_PARSE_HUGE
- * parser option.
- */
-func (ctx *parserCtx) entityCheck(ent sax.Entity, size, replacement int) error {
+// mustDeclareEntities returns true if a reference to an undeclared
+// entity is a violation of [ WFC: Entity Declared ]
+func (ctx *parserCtx) mustDeclareEntities() bool {
+	return ctx.standalone == StandaloneExplicitYes || (!ctx.hasExternalSubset && !ctx.hasPERefs)
+}
+
+// loadEntity asks the SAX2 handler for the entity first, then tries the
+// entities which may have been stored in the document. Returns nil if the
+// entity could not be found.
+func (ctx *parserCtx) loadEntity(name string) *Entity {
+	s := ctx.sax
+	if s == nil {
+		return nil
+	}
+
+	loadedEnt, err := s.GetEntity(ctx.userData, name)
+	if err == nil && loadedEnt != nil {
+		if ent, ok := loadedEnt.(*Entity); ok {
+			return ent
+		}
+		return newEntity(loadedEnt.Name(), EntityType(loadedEnt.EntityType()), "", "", string(loadedEnt.Content()), "")
+	}
+
+	if ctx == ctx.userData {
+		if ent, err := ctx.getEntity(name); err == nil {
+			return ent
+		}
+	}
 	return nil
-	/*
-	   size_t consumed = 0;
+}
 
-	   if ((ctxt == NULL) || (ctxt->options & XML_PARSE_HUGE))
-	       return (0);
-	   if (ctxt->lastError.code == XML_ERR_ENTITY_LOOP)
-	       return (1);
-	*/
+// entityExpansion describes the fully expanded replacement text of an entity
+type entityExpansion struct {
+	size int   // its size in bytes (capped at hugeEntity)
+	err  error // the reason why it can't be used in an attribute value, if any
+}
 
-	// This may look absurd but is needed to detect
-	// entities problems
-	/*
-		if ent != nil && EntityType(ent.EntityType()) != InternalPredefinedEntity && ent.Content() != nil && !ent.Checked() {
-			rep, err := decodeEntities(ent.Content(), SubstituteRef)
+// entityLimits is shared between all of the contexts that participate in
+// parsing a document
+type entityLimits struct {
+	inputSize  int // size of the document
+	expanded   int // size of the entities expanded so far
+	expansions map[*Entity]*entityExpansion
+}
+
+// size of the entities that may be expanded, on top of ten times
+// the size of the document
+const maxEntityExpansion = 1000000
+
+const hugeEntity = 1000000000
+
+var errEntityRecursion = errors.New("entity refers to itself")
+
+// expandEntity computes the properties of the expansion of the entity
+// without actually building it
+func (ctx *parserCtx) expandEntity(ent *Entity, depth int) *entityExpansion {
+	if x, ok := ctx.limits.expansions[ent]; ok {
+		if x == nil { // in the middle of computing it
+			return &entityExpansion{err: errEntityRecursion}
+		}
+		return x
+	}
+	if depth > 40 {
+		return &entityExpansion{err: errors.New("entity loop (depth > 40)")}
+	}
+	ctx.limits.expansions[ent] = nil
+
+	x := &entityExpansion{size: len(ent.content)}
+	if ent.entityType != InternalGeneralEntity {
+		// [ WFC: Parsed Entity ], [ WFC: No External Entity References ]
+		x.err = errors.New("attribute references external or unparsed entity")
+	} else if strings.IndexByte(ent.content, '<') > -1 {
+		// [ WFC: No < in Attribute Values ]
+		// The replacement text of any entity referred to directly or
+		// indirectly in an attribute value (other than "&lt;") must
+		// not contain a <.
+		x.err = errors.New("'<' in entity is not allowed in attribute values")
+	}
+
+	for s := []byte(ent.content); x.size < hugeEntity; {
+		i := bytes.IndexByte(s, '&')
+		if i < 0 {
+			break
+		}
+		s = s[i:]
+		if bytes.HasPrefix(s, []byte{'&', '#'}) {
+			_, width, err := parseStringCharRef(s)
 			if err != nil {
-				return ctx.error(err)
+				if x.err == nil {
+					x.err = err
+				}
+				width = 2
 			}
+			s = s[width:]
+			continue
 		}
 
-		return nil
-	*/
+		s = s[1:]
+		name, width, err := parseStringName(s)
+		if err == nil && (len(s) <= width || s[width] != ';') {
+			err = ErrSemicolonRequired
+		}
+		if err != nil {
+			if x.err == nil {
+				x.err = err
+			}
+			continue
+		}
+		s = s[width+1:]
+		if _, err := resolvePredefinedEntity(name); err == nil {
+			continue
+		}
+
+		nested := ctx.loadEntity(name)
+		if nested == nil {
+			if x.err == nil && ctx.mustDeclareEntities() {
+				x.err = ErrUndeclaredEntity
+			}
+			continue
+		}
+		nx := ctx.expandEntity(nested, depth+1)
+		if x.err == nil {
+			x.err = nx.err
+		}
+		x.size += nx.size
+	}
+	if x.size > hugeEntity {
+		x.size = hugeEntity
+	}
+	ctx.limits.expansions[ent] = x
+	return x
+}
+
+func (ctx *parserCtx) checkEntityInAttribute(ent *Entity) error {
+	return ctx.expandEntity(ent, 0).err
+}
+
+/* Function to check non-linear entity expansion behaviour
+ * This is here to detect and stop exponential linear entity expansion
+ * This is not a limitation of the parser but a safety
+ * boundary feature.
+ */
+func (ctx *parserCtx) entityCheck(size int) error {
+	l := ctx.limits
+	l.expanded += size
+	if l.expanded > maxEntityExpansion+10*l.inputSize {
+		return errors.New("entities expand to too much data")
+	}
+	return nil
 }
 
 func (ctx *parserCtx) handlePEReference() error {
@@ -5065,7 +4951,6 @@ func (ctx *parserCtx) handlePEReference() error {
 		                     name, NULL);
 		*/
 		ctx.valid = false
-		ctx.entityCheck(nil, 0, 0)
 		pdebug.Printf("Should be calling pushInput here")
 		/* have no clue what this is for
 		   } else if (ctxt->input->free != deallocblankswrapper) {
diff --git a/reference.go b/reference.go
index 1eb07e8..9487ef7 100644
--- a/reference.go
+++ b/reference.go
@@ -6,12 +6,27 @@ func newEntityRef() *EntityRef {
 	return n
 }
 
+// Content returns the content of the entity that is being referred to.
+// Note that the child of the reference is a part of the DTD, and as such
+// has got siblings that have nothing to do with the reference.
+func (e EntityRef) Content() []byte {
+	ent, ok := e.firstChild.(*Entity)
+	if !ok {
+		return nil
+	}
+	if ent.firstChild != nil {
+		return ent.node.Content()
+	}
+	return ent.Content()
+}
+
+// AddChild always fails, as the content of a reference is the entity's
 func (e *EntityRef) AddChild(cur Node) error {
-	return addChild(e, cur)
+	return ErrInvalidOperation
 }
 
 func (e *EntityRef) AddContent(b []byte) error {
-	return addContent(e, b)
+	return ErrInvalidOperation
 }
 
 func (e *EntityRef) AddSibling(cur Node) error {
diff --git a/tree.go b/tree.go
index 4fc76fc..757350e 100644
--- a/tree.go
+++ b/tree.go
@@ -261,6 +261,9 @@ func (t *TreeBuilder) GetEntity(ctxif sax.Context, name string) (ent sax.Entity,
 
 	ctx := ctxif.(*parserCtx)
 	doc := ctx.doc
+	if doc == nil {
+		return nil, ErrInvalidDocument
+	}
 	x, ok := doc.GetEntity(name)
 	if !ok {
 		err = errors.New("entity not found")
@@ -458,9 +461,14 @@ func (t *TreeBuilder) Reference(ctxif sax.Context, name string) error {
 
 	ctx := ctxif.(*parserCtx)
 	doc := ctx.doc
+	parent := ctx.elem
+	if doc == nil || parent == nil {
+		return ErrInvalidOperation
+	}
+
 	var n Node
 	var err error
-	if name[0] == '#' {
+	if strings.HasPrefix(name, "#") {
 		if n, err = doc.CreateCharRef(name); err != nil {
 			return err
 		}
@@ -470,7 +478,6 @@ func (t *TreeBuilder) Reference(ctxif sax.Context, name string) error {
 		}
 	}
 
-	parent := ctx.elem
 	return parent.AddChild(n)
 }
 
@@ -528,6 +535,18 @@ func (t *TreeBuilder) EntityDecl(ctxif sax.Context, name string, typ int, public
 		return errors.New("sax.EntityDecl called while note in subset")
 	}
 
+	// the first declaration is binding
+	var declared bool
+	switch EntityType(typ) {
+	case InternalParameterEntity, ExternalParameterEntity:
+		_, declared = dtd.LookupParameterEntity(name)
+	default:
+		_, declared = dtd.LookupEntity(name)
+	}
+	if declared {
+		return nil
+	}
+
 	ent, err := dtd.AddEntity(name, EntityType(typ), publicID, systemID, notation)
 	if err != nil {
 		return err
-- 
2.43.0


From dbfcf66d15a9674b57e2864db61fa0ccef27f054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 09/30] fix: refuse absurdly deep documents instead of
 exhausting the stack

---
 parser_interface.go |  2 +-
 parserctx.go        | 17 ++++++++++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index 1b79323..d66530a 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -132,7 +132,7 @@ type parserCtx struct {
 	version           string
 	attsSpecial       map[string]AttributeType
 	attsDefault       map[string][]*attrData
-	limits            *entityLimits
+	limits            *parseLimits
 	valid             bool
 	hasPERefs         bool
 	invalidInput      bool // true if the input could not be decoded to its end
diff --git a/parserctx.go b/parserctx.go
index 20990be..a77def7 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -220,7 +220,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string][]*attrData{}
-	ctx.limits = &entityLimits{expansions: map[*Entity]*entityExpansion{}}
+	ctx.limits = &parseLimits{expansions: map[*Entity]*entityExpansion{}}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -739,6 +739,12 @@ func (ctx *parserCtx) parseElement() error {
 		defer g.IRelease("END parseElement (%d)", i)
 	}
 
+	if ctx.limits.elemDepth >= maxElementDepth {
+		return ctx.error(errors.New("elements are nested too deeply"))
+	}
+	ctx.limits.elemDepth++
+	defer func() { ctx.limits.elemDepth-- }()
+
 	// parseStartTag only parses up to the attributes.
 	// For example, given <foo>bar</foo>, the next token would
 	// be bar</foo>. Given <foo />, the next token would
@@ -4721,9 +4727,10 @@ type entityExpansion struct {
 	err  error // the reason why it can't be used in an attribute value, if any
 }
 
-// entityLimits is shared between all of the contexts that participate in
+// parseLimits is shared between all of the contexts that participate in
 // parsing a document
-type entityLimits struct {
+type parseLimits struct {
+	elemDepth  int // number of elements that are being parsed
 	inputSize  int // size of the document
 	expanded   int // size of the entities expanded so far
 	expansions map[*Entity]*entityExpansion
@@ -4735,6 +4742,10 @@ const maxEntityExpansion = 1000000
 
 const hugeEntity = 1000000000
 
+// elements may not be nested deeper than this, as the parser (and most of
+// what processes its results) recurses into them
+const maxElementDepth = 10000
+
 var errEntityRecursion = errors.New("entity refers to itself")
 
 // expandEntity computes the properties of the expansion of the entity
-- 
2.43.0


From 645913f2c903bd77e3270e14998ff229a7c5d81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 10/30] fix: make the option bits independent of each other

---
 interface.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/interface.go b/interface.go
index 8c9fb1f..c9a04a8 100644
--- a/interface.go
+++ b/interface.go
@@ -12,7 +12,7 @@ const (
 type LoadSubsetOption int
 
 const (
-	DetectIDs LoadSubsetOption = 1<<iota+1
+	DetectIDs LoadSubsetOption = 1 << (iota + 1)
 	CompleteAttrs
 	SkipIDs
 )
@@ -31,7 +31,7 @@ const (
 	ParsePedantic                          /* pedantic error reporting */
 	ParseNoBlanks                          /* remove blank nodes */
 	// gap here: ParseSAX1 is not implemented
-	ParseXInclude   ParseOption = 1<<iota + 10 /* Implement XInclude substitition  */
+	ParseXInclude   ParseOption = 1 << (iota + 1) /* Implement XInclude substitition  */
 	ParseNoNet                                 /* Forbid network access */
 	ParseNoDict                                /* Do not reuse the context dictionnary */
 	ParseNsClean                               /* remove redundant namespaces declarations */
@@ -39,11 +39,11 @@ const (
 	ParseNoXIncNode                            /* do not generate XINCLUDE START/END nodes */
 	ParseCompact                               /* compact small text nodes; no modification of the tree allowed afterwards (will possibly crash if you try to modify the tree) */
 	// ParseOld10 is not implemented
-	ParseNoBaseFix /* do not fixup XINCLUDE xml:base uris */
+	ParseNoBaseFix ParseOption = 1 << (iota + 2) /* do not fixup XINCLUDE xml:base uris */
 	ParseHuge      /* relax any hardcoded limit from the parser */
 	// ParseOldSAX is not implemented
-	ParseIgnoreEnc ParseOption = 1<<iota + 21 /* ignore internal document encoding hint */
-	ParseBigLines  ParseOption = 1 << 22      /* Store big lines numbers in text PSVI field */
+	ParseIgnoreEnc ParseOption = 1 << (iota + 3) /* ignore internal document encoding hint */
+	ParseBigLines                                /* Store big lines numbers in text PSVI field */
 )
 
 type AttributeType int
-- 
2.43.0


From 9bfe9cb38b92c3e46828abe1da3247e0a421f2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 11/30] fix: pass the arguments on to the SAX2 error handler

---
 sax/sax2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sax/sax2.go b/sax/sax2.go
index 54f2d7b..3f3a61e 100644
--- a/sax/sax2.go
+++ b/sax/sax2.go
@@ -132,7 +132,7 @@ func (s SAX2) EntityDecl(ctx Context, name string, typ int, publicID string, sys
 
 func (s SAX2) Error(ctx Context, message string, args ...interface{}) error {
 	if h := s.ErrorHandler; h != nil {
-		return h(ctx, message, args)
+		return h(ctx, message, args...)
 	}
 	return ErrHandlerUnspecified;
 }
-- 
2.43.0


From 5ddc6cd13a1fe4191c3300a69f06507fc4549121 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:57 +0000
Subject: [PATCH 12/30] fix: helium-lint: report unreadable files and write
 errors instead of hanging or succeeding

---
 cmd/helium-lint/helium-lint.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index f13cf43..98d35b7 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -46,7 +46,8 @@ func _main() int {
 	}
 
 	inputCh := make(chan io.Reader)
-	errCh := make(chan error)
+	// buffered, because the error is only looked at after all of the input
+	errCh := make(chan error, 1)
 	switch {
 	case len(args) > 0: // filename present
 		go func() {
@@ -84,12 +85,15 @@ func _main() int {
 		}
 
 		d := helium.Dumper{}
-		d.DumpDoc(os.Stdout, doc)
+		if err := d.DumpDoc(os.Stdout, doc); err != nil {
+			fmt.Fprintf(os.Stderr, "%s\n", err)
+			return 1
+		}
 	}
 
 	select {
 	case err := <-errCh:
-		fmt.Fprintf(os.Stderr, "%s", err)
+		fmt.Fprintf(os.Stderr, "%s\n", err)
 		return 1
 	default:
 	}
-- 
2.43.0


From ca1b644f219640888a426c997d9daba503baa685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:43 +0000
Subject: [PATCH 13/30] fix: keep the links of the tree consistent when nodes
 are moved, replaced or merged

---
 attr.go     |  11 +++-
 comment.go  |  10 ++--
 document.go |  11 ++--
 element.go  |  20 +++----
 node.go     | 147 ++++++++++++++++++++++++++++++++++++++++++++--------
 pi.go       |   5 +-
 text.go     |  15 ++----
 tree.go     |  16 ++++--
 8 files changed, 173 insertions(+), 62 deletions(-)

diff --git a/attr.go b/attr.go
index 080f304..f1d0b2c 100644
--- a/attr.go
+++ b/attr.go
@@ -28,6 +28,7 @@ func (n *AttributeDecl) SetTreeDoc(doc *Document) {
 
 func newAttribute(name string, ns *Namespace) *Attribute {
 	attr := &Attribute{}
+	attr.etype = AttributeNode
 	attr.name = name
 	attr.ns = ns
 	return attr
@@ -76,9 +77,15 @@ func (n Attribute) Value() string {
 }
 
 func (n Attribute) Prefix() string {
-	return n.ns.Prefix()
+	if ns := n.ns; ns != nil {
+		return ns.Prefix()
+	}
+	return ""
 }
 
 func (n Attribute) URI() string {
-	return n.ns.URI()
+	if ns := n.ns; ns != nil {
+		return ns.URI()
+	}
+	return ""
 }
diff --git a/comment.go b/comment.go
index 9355f73..a7dea33 100644
--- a/comment.go
+++ b/comment.go
@@ -9,15 +9,11 @@ func newComment(b []byte) *Comment {
 }
 
 func (n *Comment) AddChild(cur Node) error {
-	var t Comment
-	switch cur.(type) {
-	case *Comment:
-		t = *(cur.(*Comment))
-	default:
+	t, ok := cur.(*Comment)
+	if !ok || t == n {
 		return ErrInvalidOperation
 	}
-
-	return n.AddContent(t.content)
+	return mergeText(n, t)
 }
 
 func (n *Comment) AddContent(b []byte) error {
diff --git a/document.go b/document.go
index 02f01b8..489f281 100644
--- a/document.go
+++ b/document.go
@@ -93,7 +93,10 @@ func (d *Document) SetDocumentElement(root Node) error {
 		return nil
 	}
 
-	root.SetParent(d)
+	if root.Type() == DocumentNode || root.Type() == AttributeNode {
+		return ErrInvalidOperation
+	}
+
 	var old Node
 	for old = d.firstChild; old != nil; old = old.NextSibling() {
 		if old.Type() == ElementNode {
@@ -102,10 +105,9 @@ func (d *Document) SetDocumentElement(root Node) error {
 	}
 
 	if old == nil {
-		d.AddChild(root)
-	} else {
-		old.Replace(root)
+		return d.AddChild(root)
 	}
+	old.Replace(root)
 	return nil
 }
 
@@ -141,6 +143,7 @@ func (d *Document) CreateAttribute(name, value string, ns *Namespace) (attr *Att
 	}
 	var n Node
 	attr = newAttribute(name, ns)
+	attr.doc = d
 	if value != "" {
 		n, err = d.stringToNodeList(value)
 		if err != nil {
diff --git a/element.go b/element.go
index a0af9ce..a1ce33c 100644
--- a/element.go
+++ b/element.go
@@ -101,25 +101,27 @@ func (n *Element) SetAttribute(name, value string) error {
 		return err
 	}
 
-	p := n.properties
-	if p == nil {
-		n.properties = attr
-		return nil
-	}
-
 	var last *Attribute
-	for ; p != nil; p = p.NextAttribute() {
+	for p := n.properties; p != nil; p = p.NextAttribute() {
 		if p.Name() == name {
 			return ErrDuplicateAttribute
 		}
 
 		last = p
 	}
+	n.appendAttribute(last, attr)
+	return nil
+}
 
+// appendAttribute adds attr after the last attribute of the element (if any)
+func (n *Element) appendAttribute(last, attr *Attribute) {
+	attr.SetParent(n)
+	if last == nil {
+		n.properties = attr
+		return
+	}
 	last.SetNextSibling(attr)
 	attr.SetPrevSibling(last)
-
-	return nil
 }
 
 func (n Element) Attributes() []*Attribute {
diff --git a/node.go b/node.go
index 0730993..ea7dc5b 100644
--- a/node.go
+++ b/node.go
@@ -102,7 +102,83 @@ func (n docnode) LastChild() Node {
 	return n.lastChild
 }
 
+// checkPlacement returns an error unless cur can be placed in (or
+// next to) n
+func checkPlacement(n, cur Node) error {
+	if n == nil || cur == nil {
+		return ErrNilNode
+	}
+
+	if n == cur || cur.Type() == DocumentNode {
+		return ErrInvalidOperation
+	}
+
+	// a node must not become its own ancestor
+	if cur.FirstChild() != nil && cur.Type() != EntityRefNode {
+		for p := n.Parent(); p != nil; p = p.Parent() {
+			if p == cur {
+				return ErrInvalidOperation
+			}
+		}
+	}
+	return nil
+}
+
+// unlinkNode detaches n from its parent and its siblings
+func unlinkNode(n Node) {
+	prev := n.PrevSibling()
+	next := n.NextSibling()
+	if prev != nil {
+		prev.SetNextSibling(next)
+	}
+	if next != nil {
+		next.SetPrevSibling(prev)
+	}
+
+	if parent := n.Parent(); parent != nil {
+		if parent.FirstChild() == n {
+			parent.setFirstChild(next)
+		}
+		if parent.LastChild() == n {
+			parent.setLastChild(prev)
+		}
+		if e, ok := parent.(*Element); ok && prev == nil && n.Type() == AttributeNode {
+			e.properties, _ = next.(*Attribute)
+		}
+	}
+
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
+}
+
+// adoptNode makes cur belong to the same document as n
+func adoptNode(n, cur Node) {
+	doc, ok := n.(*Document)
+	if !ok {
+		doc = n.OwnerDocument()
+	}
+	if doc != nil {
+		cur.SetTreeDoc(doc)
+	}
+}
+
+// mergeText moves the content of cur to the end of n
+func mergeText(n, cur Node) error {
+	content := cur.Content()
+	unlinkNode(cur)
+	return n.AddContent(content)
+}
+
 func addChild(n Node, cur Node) error {
+	if err := checkPlacement(n, cur); err != nil {
+		return err
+	}
+	if cur.Type() == AttributeNode {
+		return ErrInvalidOperation
+	}
+
+	unlinkNode(cur)
 	l := n.LastChild()
 	if l == nil { // No children, set firstChild to cur
 		if pdebug.Enabled {
@@ -111,20 +187,13 @@ func addChild(n Node, cur Node) error {
 		n.setFirstChild(cur)
 		n.setLastChild(cur)
 		cur.SetParent(n)
+		adoptNode(n, cur)
 		return nil
 	}
 
 	// AddSibling handles setting the parent, and the
 	// lastChild pointer
-	if err := l.AddSibling(cur); err != nil {
-		return err
-	}
-
-	// If the last child was a text node, keep the old LastChild
-	if cur.Type() == TextNode && l.Type() == TextNode {
-		n.setLastChild(l)
-	}
-	return nil
+	return l.AddSibling(cur)
 }
 
 func (n docnode) NextSibling() Node {
@@ -139,21 +208,33 @@ func (n docnode) PrevSibling() Node {
 }
 
 func addSibling(n, cur Node) error {
-	for n != nil {
-		if n.NextSibling() == nil {
-			n.SetNextSibling(cur)
-			cur.SetPrevSibling(n)
-			parent := n.Parent()
-			cur.SetParent(parent)
-			if parent != nil {
-				parent.setLastChild(cur)
-			}
-			return nil
-		}
-		n = n.NextSibling()
+	if err := checkPlacement(n, cur); err != nil {
+		return err
+	}
+	isAttr := n.Type() == AttributeNode
+	if isAttr != (cur.Type() == AttributeNode) {
+		return ErrInvalidOperation
 	}
 
-	return errors.New("cannot add sibling to nil node")
+	unlinkNode(cur)
+	for next := n.NextSibling(); next != nil; next = n.NextSibling() {
+		n = next
+	}
+
+	// adjacent text is kept in a single node
+	if n.Type() == TextNode && cur.Type() == TextNode {
+		return mergeText(n, cur)
+	}
+
+	n.SetNextSibling(cur)
+	cur.SetPrevSibling(n)
+	parent := n.Parent()
+	cur.SetParent(parent)
+	if parent != nil && !isAttr {
+		parent.setLastChild(cur)
+	}
+	adoptNode(n, cur)
+	return nil
 }
 
 func (n *docnode) SetPrevSibling(cur Node) {
@@ -168,13 +249,25 @@ func (n *docnode) SetParent(cur Node) {
 	n.parent = cur
 }
 
+// replaceNode puts cur in the place of n, which gets detached. Nothing
+// happens if that is not possible.
 func replaceNode(n Node, cur Node) {
+	if err := checkPlacement(n, cur); err != nil {
+		return
+	}
+	isAttr := n.Type() == AttributeNode
+	if isAttr != (cur.Type() == AttributeNode) {
+		return
+	}
+
+	unlinkNode(cur)
 	if next := n.NextSibling(); next != nil {
 		cur.SetNextSibling(next) // cur.next = n.next
 		next.SetPrevSibling(cur) // n.next.prev = cur
 	}
 
-	if prev := n.PrevSibling(); prev != nil {
+	prev := n.PrevSibling()
+	if prev != nil {
 		cur.SetPrevSibling(prev) // cur.prev = n.prev
 		prev.SetNextSibling(cur) // n.prev.next = cur
 	}
@@ -186,8 +279,16 @@ func replaceNode(n Node, cur Node) {
 		if parent.LastChild() == n {
 			parent.setLastChild(cur)
 		}
+		if e, ok := parent.(*Element); ok && prev == nil && isAttr {
+			e.properties = cur.(*Attribute)
+		}
 		cur.SetParent(parent)
 	}
+	adoptNode(n, cur)
+
+	n.SetParent(nil)
+	n.SetPrevSibling(nil)
+	n.SetNextSibling(nil)
 }
 
 func (n node) Namespace() *Namespace {
diff --git a/pi.go b/pi.go
index 230f7a4..81c03d4 100644
--- a/pi.go
+++ b/pi.go
@@ -9,11 +9,12 @@ func (p *ProcessingInstruction) Content() []byte {
 }
 
 func (p *ProcessingInstruction) AddChild(cur Node) error {
-	return addChild(p, cur)
+	return ErrInvalidOperation
 }
 
 func (p *ProcessingInstruction) AddContent(b []byte) error {
-	return addContent(p, b)
+	p.data += string(b)
+	return nil
 }
 
 func (p *ProcessingInstruction) AddSibling(cur Node) error {
diff --git a/text.go b/text.go
index 6cfdf15..66b8c54 100644
--- a/text.go
+++ b/text.go
@@ -12,15 +12,11 @@ func newText(b []byte) *Text {
 }
 
 func (n *Text) AddChild(cur Node) error {
-	var t Text
-	switch cur.(type) {
-	case *Text:
-		t = *(cur.(*Text))
-	default:
+	t, ok := cur.(*Text)
+	if !ok || t == n {
 		return ErrInvalidOperation
 	}
-
-	return n.AddContent(t.content)
+	return mergeText(n, t)
 }
 
 func (n *Text) AddContent(b []byte) error {
@@ -36,12 +32,9 @@ func (n *Text) AddContent(b []byte) error {
 
 func (n *Text) AddSibling(cur Node) error {
 	if pdebug.Enabled {
-		g := pdebug.IPrintf("START Text.AddSibling '%s'", cur.Content())
+		g := pdebug.IPrintf("START Text.AddSibling")
 		defer g.IRelease("END Text.AddSibling")
 	}
-	if cur.Type() == TextNode {
-		return n.AddContent(cur.Content())
-	}
 	return addSibling(n, cur)
 }
 
diff --git a/tree.go b/tree.go
index 757350e..74d68c3 100644
--- a/tree.go
+++ b/tree.go
@@ -107,6 +107,8 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 	if pdebug.Enabled {
 		pdebug.Printf("We got %d attributes", len(attrs))
 	}
+	// the parser makes sure that there are no duplicates
+	var last *Attribute
 	for _, attr := range attrs {
 		if attr.IsDefault() && !ctx.loadsubset.IsSet(CompleteAttrs) {
 			if pdebug.Enabled {
@@ -114,9 +116,12 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 			}
 			continue
 		}
-		if err := e.SetAttribute(attr.Name(), attr.Value()); err != nil {
+		a, err := doc.CreateAttribute(attr.Name(), attr.Value(), nil)
+		if err != nil {
 			return err
 		}
+		e.appendAttribute(last, a)
+		last = a
 	}
 
 	var parent Node
@@ -124,11 +129,14 @@ func (t *TreeBuilder) StartElementNS(ctxif sax.Context, localname, prefix, uri s
 		parent = e
 	}
 	if parent == nil {
-		doc.AddChild(e)
+		err = doc.AddChild(e)
 	} else if parent.Type() == ElementNode {
-		parent.AddChild(e)
+		err = parent.AddChild(e)
 	} else {
-		parent.AddSibling(e)
+		err = parent.AddSibling(e)
+	}
+	if err != nil {
+		return err
 	}
 
 	ctx.elem = e
-- 
2.43.0


From 2a098185a27f815df99898628c3206ca969d78f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:12 +0000
Subject: [PATCH 14/30] fix: skip blanks and check namespace declarations in
 linear time

---
 parserctx.go | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index a77def7..c40eff9 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -148,16 +148,7 @@ func (ctx *parserCtx) lookupNamespace(prefix string) string {
 	return ctx.nsTab.Lookup(prefix)
 }
 
-// hasNSDecl returns true if prefix is declared by one of the n most
-// recent namespace declarations
-func (ctx *parserCtx) hasNSDecl(prefix string, n int) bool {
-	for _, ns := range ctx.nsTab.Peek(n) {
-		if ns.Key() == prefix {
-			return true
-		}
-	}
-	return false
-}
+
 
 func (ctx *parserCtx) release() error {
 	ctx.sax = nil
@@ -805,6 +796,7 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 	empty := false
 	nbNs := 0
 	attrs := []sax.Attribute{}
+	// [ WFC: Unique Att Spec ], namespace declarations included
 	seen := map[string]struct{}{}
 	for ctx.instate != psEOF {
 		blanks := ctx.skipBlanks()
@@ -829,9 +821,10 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 
 		if attname == XMLNsPrefix && aprefix == "" {
 			// <elem xmlns="...">
-			if ctx.hasNSDecl("", nbNs) {
+			if _, ok := seen[XMLNsPrefix]; ok {
 				return false, ctx.error(ErrDuplicateAttribute)
 			}
+			seen[XMLNsPrefix] = struct{}{}
 			if attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef); err != nil {
 				return false, ctx.error(err)
 			}
@@ -840,6 +833,10 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 			continue
 		} else if aprefix == XMLNsPrefix {
 			// <elem xmlns:foo="...">
+			if _, ok := seen[XMLNsPrefix+":"+attname]; ok {
+				return false, ctx.error(ErrDuplicateAttribute)
+			}
+			seen[XMLNsPrefix+":"+attname] = struct{}{}
 			if attvalue, err = ctx.decodeEntities([]byte(attvalue), SubstituteRef); err != nil {
 				return false, ctx.error(err)
 			}
@@ -870,9 +867,6 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 				return false, ctx.error(fmt.Errorf("xmlns:%s: URI %s is not absolute", attname, attvalue))
 			}
 
-			if ctx.hasNSDecl(attname, nbNs) {
-				return false, ctx.error(ErrDuplicateAttribute)
-			}
 			ctx.pushNS(attname, attvalue)
 			nbNs++
 
@@ -888,7 +882,6 @@ func (ctx *parserCtx) parseStartTag() (bool, error) {
 			value:     attvalue,
 		}
 
-		// [ WFC: Unique Att Spec ]
 		if _, ok := seen[attr.Name()]; ok {
 			return false, ctx.error(ErrDuplicateAttribute)
 		}
@@ -1210,12 +1203,11 @@ func (ctx *parserCtx) skipBlanks() bool {
 	if cur == nil {
 		panic("did not get rune cursor")
 	}
-	for c := cur.PeekN(i + 1); isBlankCh(c) && !cur.Done(); c = cur.PeekN(i + 1) {
+	for isBlankCh(cur.Peek()) {
+		cur.Advance(1)
 		i++
 	}
 	if i > 0 {
-		cur.Advance(i)
-
 		if cur.Peek() == '%' {
 			pdebug.Printf("Found possible parameter entity reference")
 			ctx.handlePEReference()
-- 
2.43.0


From ecf31f04dc23244b582fd09a35b36d05165b2891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 15/30] fix: reject an internal subset after the end of the
 document type declaration

---
 parserctx.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index c40eff9..89f2e5c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -503,11 +503,8 @@ func (ctx *parserCtx) parseDocument() error {
 			return ctx.error(err)
 		}
 
-		if cur.HasPrefixString("[") {
-			ctx.instate = psDTD
-			if err := ctx.parseInternalSubset(); err != nil {
-				return ctx.error(err)
-			}
+		if err := ctx.parseInternalSubset(); err != nil {
+			return ctx.error(err)
 		}
 
 		ctx.inSubset = inExternalSubset
@@ -2026,11 +2023,11 @@ func (ctx *parserCtx) parseDocTypeDecl() error {
 		return nil
 	}
 
-	// Otherwise this should be the end of DTD
+	// Otherwise this should be the end of DTD. parseInternalSubset()
+	// consumes it, so that nothing after it is taken for a subset
 	if c != '>' {
 		return ctx.error(ErrDocTypeNotFinished)
 	}
-	cur.Advance(1)
 
 	return nil
 }
-- 
2.43.0


From 010c72c04c567d8a5013f93b2ca37c7b4d71b8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 16/30] fix: reject version numbers that are not 1.x

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index 89f2e5c..521ee41 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1330,7 +1330,7 @@ func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
 		panic("did not get rune cursor")
 	}
 
-	if v := cur.Peek(); v > '9' || v < '0' {
+	if cur.Peek() != '1' {
 		return "", ErrInvalidVersionNum
 	}
 
-- 
2.43.0


From 89c4f9c69944ebea4c187090f0dcc888b9ba3cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:41 +0000
Subject: [PATCH 17/30] fix: read version numbers and encoding names in one
 pass, do not skip NUL after a name

---
 parserctx.go | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 521ee41..e99859d 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1342,19 +1342,16 @@ func (ctx *parserCtx) parseVersionNum(_ rune) (string, error) {
 		return "", ErrInvalidVersionNum
 	}
 
-	for i := 4; ; i++ {
-		if v := cur.PeekN(i); v > '9' || v < '0' {
-			b := bufferPool.Get().(*bytes.Buffer)
-			defer releaseBuffer(b)
+	b := bufferPool.Get().(*bytes.Buffer)
+	defer releaseBuffer(b)
 
-			for x := 1; x < i; x++ {
-				b.WriteRune(cur.PeekN(x))
-			}
-			cur.Advance(i - 1)
-			return b.String(), nil
-		}
+	b.WriteString("1.")
+	cur.Advance(2)
+	for v := cur.Peek(); v >= '0' && v <= '9'; v = cur.Peek() {
+		b.WriteRune(v)
+		cur.Advance(1)
 	}
-	return "", ErrInvalidVersionNum
+	return b.String(), nil
 }
 
 type qtextHandler func(qch rune) (string, error)
@@ -1423,20 +1420,12 @@ func (ctx *parserCtx) parseEncodingName(_ rune) (string, error) {
 	if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') {
 		return "", ctx.error(ErrInvalidEncodingName)
 	}
-	buf.WriteRune(c)
-
-	i := 2
-	for c = cur.PeekN(i); c != 0x0; c = cur.PeekN(i) {
-		if !(c >= 'a' && c <= 'z') && !(c >= 'A' && c <= 'Z') && !(c >= '0' && c <= '9') && c != '.' && c != '_' && c != '-' {
-			i--
-			break
-		}
+	for (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || (c >= '0' && c <= '9') || c == '.' || c == '_' || c == '-' {
 		buf.WriteRune(c)
-		i++
+		cur.Advance(1)
+		c = cur.Peek()
 	}
 
-	cur.Advance(i)
-
 	return buf.String(), nil
 }
 
-- 
2.43.0


From e854a9c8ce0a9893e4f4c747425b8c3e65028a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:22 +0000
Subject: [PATCH 18/30] fix: detect entity loops by name, handlers may return a
 new entity each time

---
 parserctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index e99859d..6d60f1f 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -211,7 +211,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
 	ctx.attsDefault = map[string][]*attrData{}
-	ctx.limits = &parseLimits{expansions: map[*Entity]*entityExpansion{}}
+	ctx.limits = &parseLimits{expansions: map[string]*entityExpansion{}}
 	ctx.wellFormed = true
 	if p != nil {
 		ctx.sax = p.sax
@@ -521,7 +521,7 @@ func (ctx *parserCtx) parseDocument() error {
 		}
 		ctx.inSubset = notInSubset
 		// all of the entities are known from now on
-		ctx.limits.expansions = map[*Entity]*entityExpansion{}
+		ctx.limits.expansions = map[string]*entityExpansion{}
 
 		ctx.cleanSpecialAttributes()
 
@@ -4711,7 +4711,7 @@ type parseLimits struct {
 	elemDepth  int // number of elements that are being parsed
 	inputSize  int // size of the document
 	expanded   int // size of the entities expanded so far
-	expansions map[*Entity]*entityExpansion
+	expansions map[string]*entityExpansion
 }
 
 // size of the entities that may be expanded, on top of ten times
@@ -4729,7 +4729,7 @@ var errEntityRecursion = errors.New("entity refers to itself")
 // expandEntity computes the properties of the expansion of the entity
 // without actually building it
 func (ctx *parserCtx) expandEntity(ent *Entity, depth int) *entityExpansion {
-	if x, ok := ctx.limits.expansions[ent]; ok {
+	if x, ok := ctx.limits.expansions[ent.name]; ok {
 		if x == nil { // in the middle of computing it
 			return &entityExpansion{err: errEntityRecursion}
 		}
@@ -4738,7 +4738,7 @@ func (ctx *parserCtx) expandEntity(ent *Entity, depth int) *entityExpansion {
 	if depth > 40 {
 		return &entityExpansion{err: errors.New("entity loop (depth > 40)")}
 	}
-	ctx.limits.expansions[ent] = nil
+	ctx.limits.expansions[ent.name] = nil
 
 	x := &entityExpansion{size: len(ent.content)}
 	if ent.entityType != InternalGeneralEntity {
@@ -4802,7 +4802,7 @@ func (ctx *parserCtx) expandEntity(ent *Entity, depth int) *entityExpansion {
 	if x.size > hugeEntity {
 		x.size = hugeEntity
 	}
-	ctx.limits.expansions[ent] = x
+	ctx.limits.expansions[ent.name] = x
 	return x
 }
 
-- 
2.43.0


From b1f7f78aea09e1131f562bdb66cf8891d90efaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:06 +0000
Subject: [PATCH 19/30] fix: classify white space by the declarations, whatever
 the handler does with them

---
 parser_interface.go |  1 +
 parserctx.go        | 37 +++++++++++++++++++++++++++++--------
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/parser_interface.go b/parser_interface.go
index d66530a..d9677cb 100644
--- a/parser_interface.go
+++ b/parser_interface.go
@@ -131,6 +131,7 @@ type parserCtx struct {
 	extSubURI         string
 	version           string
 	attsSpecial       map[string]AttributeType
+	elemTypes         map[string]ElementTypeVal // declared elements
 	attsDefault       map[string][]*attrData
 	limits            *parseLimits
 	valid             bool
diff --git a/parserctx.go b/parserctx.go
index 6d60f1f..72c62a2 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -210,6 +210,7 @@ func (ctx *parserCtx) init(p *Parser, in io.Reader) error {
 	ctx.userData = ctx // circular dep?!
 	ctx.standalone = StandaloneImplicitNo
 	ctx.attsSpecial = map[string]AttributeType{}
+	ctx.elemTypes = map[string]ElementTypeVal{}
 	ctx.attsDefault = map[string][]*attrData{}
 	ctx.limits = &parseLimits{expansions: map[string]*entityExpansion{}}
 	ctx.wellFormed = true
@@ -1833,9 +1834,17 @@ func (ctx *parserCtx) areBlanks(s string, blankChars bool) (ret bool) {
 		ret = false
 		return
 	}
-	if ctx.doc != nil {
-		ok, _ := ctx.doc.IsMixedElement(ctx.peekNode().Name())
-		ret = !ok
+	switch ctx.elemTypes[ctx.peekNode().Name()] {
+	case UndefinedElementType:
+		if ctx.doc != nil {
+			ret = true
+			return
+		}
+	case ElementElementType:
+		ret = true
+		return
+	default:
+		ret = false
 		return
 	}
 
@@ -2389,6 +2398,11 @@ func (ctx *parserCtx) parseElementDecl() (ElementTypeVal, error) {
 	           }
 	*/
 
+	// the first declaration is binding
+	if _, ok := ctx.elemTypes[name]; !ok {
+		ctx.elemTypes[name] = etype
+	}
+
 	if s := ctx.sax; s != nil {
 		switch err := s.ElementDecl(ctx.userData, name, int(etype), content); err {
 		case nil, sax.ErrHandlerUnspecified:
@@ -3984,6 +3998,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.hasExternalSubset = ctx.hasExternalSubset
 	newctx.hasPERefs = ctx.hasPERefs
 	newctx.attsSpecial = ctx.attsSpecial
+	newctx.elemTypes = ctx.elemTypes
 	newctx.nsTab.UniqueStack = append(newctx.nsTab.UniqueStack, ctx.nsTab.UniqueStack...)
 
 	if userData != nil {
@@ -3992,8 +4007,10 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 		newctx.userData = newctx
 	}
 
-	if ctx.doc == nil {
-		ctx.doc = NewDocument("1.0", "", StandaloneExplicitNo)
+	// note: there is no document, unless the handler builds one
+	doc := ctx.doc
+	if doc == nil {
+		doc = NewDocument("1.0", "", StandaloneExplicitNo)
 	}
 
 	newctx.doc = ctx.doc
@@ -4001,8 +4018,12 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 	newctx.attsDefault = ctx.attsDefault
 	newctx.depth = ctx.depth
 
-	// create a dummy node
-	newRoot, err := newctx.doc.CreateElement("pseudoroot")
+	// create a dummy node. It stands for the element the content is in
+	rootName := "pseudoroot"
+	if e := ctx.peekNode(); e != nil {
+		rootName = e.Name()
+	}
+	newRoot, err := doc.CreateElement(rootName)
 	if err != nil {
 		return nil, ctx.error(err)
 	}
@@ -4022,7 +4043,7 @@ func (ctx *parserCtx) parseBalancedChunkInternal(chunk []byte, userData interfac
 
 	if child := newRoot.FirstChild(); child != nil {
 		for e := child; e != nil; e = e.NextSibling() {
-			e.SetTreeDoc(ctx.doc)
+			e.SetTreeDoc(doc)
 			e.SetParent(nil)
 		}
 		return child, nil
-- 
2.43.0


From 5dafc340a6da1d6363f39fe16c4c45b26e026da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:07 +0000
Subject: [PATCH 20/30] fix: account for the entities that attribute values
 refer to

---
 parserctx.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index 72c62a2..3a6588c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1091,6 +1091,14 @@ func (ctx *parserCtx) parseAttributeValueInternal(qch rune, normalize bool) (val
 						}
 					}
 				} else {
+					// the entities in the content of an entity are
+					// already accounted for
+					if ctx.depth == 0 {
+						if err = ctx.entityCheck(ctx.expandEntity(ent, 0).size); err != nil {
+							err = ctx.error(err)
+							return
+						}
+					}
 					b.WriteString("&")
 					b.WriteString(name)
 					b.WriteString(";")
-- 
2.43.0


From dd8753cbd77c757541f611d850b323d9fda07c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:41 +0000
Subject: [PATCH 21/30] fix: a name that starts with a colon has no prefix

---
 dtd.go       | 4 ++--
 parserctx.go | 2 +-
 tree.go      | 2 +-
 valid.go     | 2 +-
 4 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dtd.go b/dtd.go
index fbf80e7..3fd8c77 100644
--- a/dtd.go
+++ b/dtd.go
@@ -66,7 +66,7 @@ func (dtd *DTD) AddElementDecl(name string, typ ElementTypeVal, content *Element
 	}
 
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
@@ -171,7 +171,7 @@ func (dtd *DTD) LookupParameterEntity(name string) (*Entity, bool) {
 
 func (dtd *DTD) GetElementDesc(name string) (*ElementDecl, bool) {
 	var prefix string
-	if i := strings.IndexByte(name, ':'); i > -1 {
+	if i := strings.IndexByte(name, ':'); i > 0 {
 		prefix = name[:i]
 		name = name[i+1:]
 	}
diff --git a/parserctx.go b/parserctx.go
index 3a6588c..a594f18 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3807,7 +3807,7 @@ func (ctx *parserCtx) addAttributeDefault(elemName, attrName, defaultValue strin
 
 	var prefix string
 	var local string
-	if i := strings.IndexByte(attrName, ':'); i > -1 {
+	if i := strings.IndexByte(attrName, ':'); i > 0 {
 		prefix = attrName[:i]
 		local = attrName[i+1:]
 	} else {
diff --git a/tree.go b/tree.go
index 74d68c3..e5b42a1 100644
--- a/tree.go
+++ b/tree.go
@@ -316,7 +316,7 @@ func (t *TreeBuilder) AttributeDecl(ctxif sax.Context, eName string, aName strin
 	// We have nowhere to report it to
 	var prefix string
 	var local string
-	if i := strings.IndexByte(aName, ':'); i > -1 {
+	if i := strings.IndexByte(aName, ':'); i > 0 {
 		prefix = aName[:i]
 		local = aName[i+1:]
 	} else {
diff --git a/valid.go b/valid.go
index 26d3a6a..731fe48 100644
--- a/valid.go
+++ b/valid.go
@@ -19,7 +19,7 @@ func newElementContent(name string, ctype ElementContentType) (*ElementContent,
 		if name == "" {
 			return nil, errors.New("ElementContent (element) must have name")
 		}
-		if i := strings.IndexByte(name, ':'); i > -1 {
+		if i := strings.IndexByte(name, ':'); i > 0 {
 			prefix = name[:i]
 			local = name[i+1:]
 		} else {
-- 
2.43.0


From 61b6d10b9055ca18628ecf1732a282434bed8fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:47 +0000
Subject: [PATCH 22/30] fix: accept UTF-16 documents declared as utf16, utf16le
 or utf16be

---
 parserctx.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/parserctx.go b/parserctx.go
index a594f18..f092ac1 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -430,7 +430,7 @@ func (ctx *parserCtx) switchEncoding() error {
 	}
 
 	if decoded {
-		if ctx.encoding != "" && !strings.HasPrefix(strings.ToLower(ctx.encoding), "utf-16") {
+		if name := strings.ToLower(ctx.encoding); name != "" && !strings.HasPrefix(name, "utf-16") && !strings.HasPrefix(name, "utf16") {
 			return ctx.error(errors.New("document is not encoded in '" + ctx.encoding + "'"))
 		}
 	} else {
-- 
2.43.0


From 54f6988e3d6017b9df562b9ef1ab56b4f735855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:42 +0000
Subject: [PATCH 23/30] fix: report short writes when a document is written in
 another encoding

---
 dump.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dump.go b/dump.go
index 1bf78a3..05808d0 100644
--- a/dump.go
+++ b/dump.go
@@ -264,7 +264,7 @@ func (d *Dumper) DumpDoc(out io.Writer, doc *Document) error {
 			return errors.New("encoding '" + name + "' not supported")
 		}
 		if e != encoding.Load("utf-8") {
-			encoder = transform.NewWriter(out, e.NewEncoder())
+			encoder = transform.NewWriter(&dumpWriter{out: out}, e.NewEncoder())
 			w.out = encoder
 			w.enc = e
 		}
-- 
2.43.0


From 6b5c3143bba3958e31f98f9bbd8b80d11ded27ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:16 +0000
Subject: [PATCH 24/30] fix: CreateInternalSubset puts the DTD in front of the
 root element

---
 document.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/document.go b/document.go
index 489f281..776552f 100644
--- a/document.go
+++ b/document.go
@@ -214,8 +214,21 @@ func (d *Document) CreateInternalSubset(name, externalID, systemID string) (*DTD
 	cur.parent = d
 	cur.doc = d
 
-	// there's an elaborate code in libxml2 to insert the node in
-	// the correct location...
+	// the document type declaration must come before the root element
+	for next := d.FirstChild(); next != nil; next = next.NextSibling() {
+		if next.Type() != ElementNode {
+			continue
+		}
+		if prev := next.PrevSibling(); prev != nil {
+			prev.SetNextSibling(cur)
+			cur.SetPrevSibling(prev)
+		} else {
+			d.setFirstChild(cur)
+		}
+		cur.SetNextSibling(next)
+		next.SetPrevSibling(cur)
+		return cur, nil
+	}
 	d.AddChild(cur)
 
 	return cur, nil
-- 
2.43.0


From c1ec16f5cdc332cc882215fb07393b38260c8eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:19 +0000
Subject: [PATCH 25/30] fix: external identifiers are serialised as quoted
 literals

---
 dump.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dump.go b/dump.go
index 05808d0..c1f141a 100644
--- a/dump.go
+++ b/dump.go
@@ -322,12 +322,14 @@ func (d *Dumper) dumpDTD(out io.Writer, n Node) error {
 	io.WriteString(out, " ")
 
 	if dtd.externalID != "" {
-		io.WriteString(out, " PUBLIC ")
-		io.WriteString(out, dtd.externalID)
+		io.WriteString(out, "PUBLIC ")
+		dumpQuotedString(out, dtd.externalID)
+		io.WriteString(out, " ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	} else if dtd.systemID != "" {
-		io.WriteString(out, " SYSTEM ")
-		io.WriteString(out, dtd.systemID)
+		io.WriteString(out, "SYSTEM ")
+		dumpQuotedString(out, dtd.systemID)
 		io.WriteString(out, " ")
 	}
 
@@ -485,7 +487,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 	case ExternalGeneralParsedEntity, ExternalGeneralUnparsedEntity:
 		io.WriteString(out, "<!ENTITY ")
 		io.WriteString(out, ent.name)
-		if ent.externalID == "" {
+		if ent.externalID != "" {
 			io.WriteString(out, " PUBLIC ")
 			dumpQuotedString(out, ent.externalID)
 			io.WriteString(out, " ")
@@ -528,6 +530,7 @@ func (d *Dumper) dumpEntityDecl(out io.Writer, ent *Entity) error {
 			io.WriteString(out, " SYSTEM ")
 			dumpQuotedString(out, ent.systemID)
 		}
+		io.WriteString(out, ">\n")
 	default:
 		return errors.New("invalid entity type")
 	}
-- 
2.43.0


From 8810ee03890fee4ff54220332bdbaea20bb1a189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:21 +0000
Subject: [PATCH 26/30] fix: check entities in attribute defaults against later
 declarations, too

---
 parserctx.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/parserctx.go b/parserctx.go
index f092ac1..28a3dbd 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -3286,6 +3286,11 @@ func (ctx *parserCtx) parseEntityDecl() error {
 	if curent != nil && !declared {
 		curent.SetOrig(literal)
 	}
+	if ctx.limits.incomplete {
+		// what has been undeclared so far may have been declared now
+		ctx.limits.expansions = map[string]*entityExpansion{}
+		ctx.limits.incomplete = false
+	}
 
 	return nil
 }
@@ -4741,6 +4746,7 @@ type parseLimits struct {
 	inputSize  int // size of the document
 	expanded   int // size of the entities expanded so far
 	expansions map[string]*entityExpansion
+	incomplete bool // expansions are based on undeclared entities
 }
 
 // size of the entities that may be expanded, on top of ten times
@@ -4817,6 +4823,7 @@ func (ctx *parserCtx) expandEntity(ent *Entity, depth int) *entityExpansion {
 
 		nested := ctx.loadEntity(name)
 		if nested == nil {
+			ctx.limits.incomplete = true
 			if x.err == nil && ctx.mustDeclareEntities() {
 				x.err = ErrUndeclaredEntity
 			}
-- 
2.43.0


From ed30a7aba1a7e518f0bd5f84eda468050cabe6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:54 +0000
Subject: [PATCH 27/30] fix: use the name character ranges of the
 recommendation

---
 parserctx.go | 44 +++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 28a3dbd..2781a8b 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -1613,7 +1613,7 @@ func (ctx *parserCtx) parseName() (name string, err error) {
 
 	// first letter
 	c := cur.Peek()
-	if c == ' ' || c == '>' || c == '/' || /* accelerators */ (!unicode.IsLetter(c) && c != '_' && c != ':') {
+	if c == ' ' || c == '>' || c == '/' || /* accelerators */ !isNameStartChar(c) {
 		err = ctx.error(fmt.Errorf("invalid first letter '%c'", c))
 		return
 	}
@@ -1684,14 +1684,48 @@ func (ctx *parserCtx) parseQName() (local string, prefix string, err error) {
 	return
 }
 
+// isNameStartChar returns true if r may start a name
+//
+// [4] NameStartChar ::= ":" | [A-Z] | "_" | [a-z] | [#xC0-#xD6] | [#xD8-#xF6] |
+//
+//	[#xF8-#x2FF] | [#x370-#x37D] | [#x37F-#x1FFF] |
+//	[#x200C-#x200D] | [#x2070-#x218F] | [#x2C00-#x2FEF] |
+//	[#x3001-#xD7FF] | [#xF900-#xFDCF] | [#xFDF0-#xFFFD] |
+//	[#x10000-#xEFFFF]
 func isNameStartChar(r rune) bool {
-	return unicode.IsLetter(r) || r == '_' || r == ':'
+	switch {
+	case 'a' <= r && r <= 'z', 'A' <= r && r <= 'Z', r == '_', r == ':':
+		return true
+	case 0xC0 <= r && r <= 0x2FF:
+		return r != 0xD7 && r != 0xF7
+	case 0x370 <= r && r <= 0x1FFF:
+		return r != 0x37E
+	case 0x200C <= r && r <= 0x200D,
+		0x2070 <= r && r <= 0x218F,
+		0x2C00 <= r && r <= 0x2FEF,
+		0x3001 <= r && r <= 0xD7FF,
+		0xF900 <= r && r <= 0xFDCF,
+		0xFDF0 <= r && r <= 0xFFFC, // U+FFFD stands for invalid input
+		0x10000 <= r && r <= 0xEFFFF:
+		return true
+	}
+	return false
 }
 
+// isNameChar returns true if r may occur in a name
+//
+// [4a] NameChar ::= NameStartChar | "-" | "." | [0-9] | #xB7 |
+//
+//	[#x0300-#x036F] | [#x203F-#x2040]
 func isNameChar(r rune) bool {
-	return r == '.' || r == '-' || r == '_' || r == ':' ||
-		unicode.IsLetter(r) || unicode.IsDigit(r) ||
-		unicode.In(r, unicode.M, unicode.Extender)
+	switch {
+	case isNameStartChar(r),
+		r == '-', r == '.', '0' <= r && r <= '9', r == 0xB7,
+		0x300 <= r && r <= 0x36F,
+		0x203F <= r && r <= 0x2040:
+		return true
+	}
+	return false
 }
 
 /**
-- 
2.43.0


From 9cf8be9a4ce718ce76177c002caa0412aa9cdfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:56 +0000
Subject: [PATCH 28/30] fix: only text and references are children of
 attributes

---
 node.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/node.go b/node.go
index ea7dc5b..6775f9c 100644
--- a/node.go
+++ b/node.go
@@ -124,6 +124,16 @@ func checkPlacement(n, cur Node) error {
 	return nil
 }
 
+// canContain returns true if cur may be a child of parent. The value of
+// an attribute consists of text and references.
+func canContain(parent, cur Node) bool {
+	if parent == nil || parent.Type() != AttributeNode {
+		return true
+	}
+	t := cur.Type()
+	return t == TextNode || t == EntityRefNode
+}
+
 // unlinkNode detaches n from its parent and its siblings
 func unlinkNode(n Node) {
 	prev := n.PrevSibling()
@@ -174,7 +184,7 @@ func addChild(n Node, cur Node) error {
 	if err := checkPlacement(n, cur); err != nil {
 		return err
 	}
-	if cur.Type() == AttributeNode {
+	if cur.Type() == AttributeNode || !canContain(n, cur) {
 		return ErrInvalidOperation
 	}
 
@@ -212,7 +222,7 @@ func addSibling(n, cur Node) error {
 		return err
 	}
 	isAttr := n.Type() == AttributeNode
-	if isAttr != (cur.Type() == AttributeNode) {
+	if isAttr != (cur.Type() == AttributeNode) || !canContain(n.Parent(), cur) {
 		return ErrInvalidOperation
 	}
 
@@ -256,7 +266,7 @@ func replaceNode(n Node, cur Node) {
 		return
 	}
 	isAttr := n.Type() == AttributeNode
-	if isAttr != (cur.Type() == AttributeNode) {
+	if isAttr != (cur.Type() == AttributeNode) || !canContain(n.Parent(), cur) {
 		return
 	}
 
-- 
2.43.0


From f46d452924097c90b9b599036ec856c95e0e231b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:54:12 +0000
Subject: [PATCH 29/30] fix: account for the entities that expand to nothing in
 values

---
 parserctx.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/parserctx.go b/parserctx.go
index 2781a8b..d2fac7c 100644
--- a/parserctx.go
+++ b/parserctx.go
@@ -2959,6 +2959,12 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 	if depth > 40 {
 		return "", errors.New("entity loop (depth > 40)")
 	}
+	// it takes time to expand an entity even if it expands to nothing
+	if depth > 0 {
+		if err := ctx.entityCheck(len(s)); err != nil {
+			return "", err
+		}
+	}
 
 	out := bufferPool.Get().(*bytes.Buffer)
 	defer releaseBuffer(out)
@@ -2992,9 +2998,6 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 				if err != nil {
 					return "", err
 				}
-				if err := ctx.entityCheck(len(rep)); err != nil {
-					return "", err
-				}
 
 				out.WriteString(rep)
 			}
@@ -3012,9 +3015,6 @@ func (ctx *parserCtx) decodeEntitiesInternal(s []byte, what SubstitutionType, de
 			if err != nil {
 				return "", err
 			}
-			if err := ctx.entityCheck(len(rep)); err != nil {
-				return "", err
-			}
 			out.WriteString(rep)
 			s = s[width:]
 		} else {
-- 
2.43.0


From 9bb4622a63c3a225bc413627fa30f16d5eeac53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:25 +0000
Subject: [PATCH 30/30] fix: close the files that have been read

---
 cmd/helium-lint/helium-lint.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/helium-lint/helium-lint.go b/cmd/helium-lint/helium-lint.go
index 98d35b7..988a081 100644
--- a/cmd/helium-lint/helium-lint.go
+++ b/cmd/helium-lint/helium-lint.go
@@ -45,7 +45,7 @@ func _main() int {
 		return 0
 	}
 
-	inputCh := make(chan io.Reader)
+	inputCh := make(chan io.ReadCloser)
 	// buffered, because the error is only looked at after all of the input
 	errCh := make(chan error, 1)
 	switch {
@@ -74,6 +74,7 @@ func _main() int {
 	p := helium.NewParser()
 	for in := range inputCh {
 		buf, err := ioutil.ReadAll(in)
+		in.Close()
 		if err != nil {
 			fmt.Fprintf(os.Stderr, "%s\n", err)
 			return 1
-- 
2.43.0

