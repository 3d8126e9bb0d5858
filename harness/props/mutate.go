package props

import (
	"strings"
	"unicode/utf8"

	"pgregory.net/rapid"
)

var tokens = []string{
	"<", ">", "/", "&", ";", "=", "'", "\"", "!", "?", "-", "[", "]", "#", "%", "|", ",", "(", ")", "*", "+", ":", " ", "\n", "\t", "\r",
	"<a>", "</a>", "<a/>", "<b", "/>", "</", "<!--", "-->", "--", "<![CDATA[", "]]>", "<?", "?>", "<?x?>", "<?xml", "&amp;", "&lt;", "&#65;", "&#x41;", "&#0;", "&#", "&#x", "&e1;", "&a", "&u;",
	"<!DOCTYPE a", "<!DOCTYPE", "<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!ENTITY e1 'x'>", "<!ELEMENT a EMPTY>", "<!ATTLIST a b CDATA #IMPLIED>", "EMPTY", "ANY", "#PCDATA", "CDATA", "#REQUIRED", "#IMPLIED", "#FIXED", "ID", "NMTOKENS", "NOTATION (x|y)", "NOTATION", "SYSTEM", "version", "version='1.0'", "encoding='utf-8'", "standalone='yes'", "standalone='no'", "standalone", "encoding",
	"xmlns", "xmlns=''", "xmlns:p='urn:x'", "p:", " a='1'", " b=\"2\"", "a", "b", "x", "1", "é", "日", "\x01", "\x00", "\x7f", "\uFFFE", "\uFFFF", "\U0001F600", "\x0b", "\ufeff", "]]", "\xff", "\xc3", "\xed\xa0\x80", "\xc0\x80",
}

// mutate edits src in n places
func mutate(t *rapid.T, src []byte, n int) []byte {
	b := append([]byte(nil), src...)
	pos := func() int {
		if len(b) == 0 {
			return 0
		}
		p := uni(t, len(b)+1)
		// at a character boundary, most of the time
		for p > 0 && p < len(b) && !utf8.RuneStart(b[p]) {
			p--
		}
		return p
	}
	span := func(p int) int {
		l := ri(t, 1, 6)
		if chance(t, 1, 8) {
			l = ri(t, 1, 60)
		}
		e := p + l
		if e > len(b) {
			e = len(b)
		}
		for e < len(b) && !utf8.RuneStart(b[e]) {
			e++
		}
		return e
	}
	splice := func(p, e int, ins string) {
		r := append([]byte(nil), b[:p]...)
		r = append(r, ins...)
		b = append(r, b[e:]...)
	}
	for ; n > 0; n-- {
		p := pos()
		switch ri(t, 0, 8) {
		case 0, 1:
			splice(p, p, pick(t, tokens))
		case 2:
			splice(p, span(p), "")
		case 3:
			splice(p, span(p), pick(t, tokens))
		case 4: // one character
			if p < len(b) {
				_, w := utf8.DecodeRune(b[p:])
				splice(p, p+w, "")
			}
		case 5: // copy a piece to somewhere else
			e := span(p)
			piece := string(b[p:e])
			q := pos()
			splice(q, q, piece)
		case 6: // replace one character
			if p < len(b) {
				_, w := utf8.DecodeRune(b[p:])
				splice(p, p+w, string(genChar(t, true)))
			}
		case 7: // a small change to a word
			b, _ = editKeyword(t, b)
		default: // swap neighbours
			if p+1 < len(b) && b[p] < 0x80 && b[p+1] < 0x80 {
				b[p], b[p+1] = b[p+1], b[p]
			}
		}
	}
	return b
}

// lookLike has what looks like letters, digits and delimiters
var lookLike = map[byte][]string{
	'a': {"\u0430", "\u00e1", "\uff41"}, 'e': {"\u0435", "\u00e9", "\uff45"}, 'o': {"0", "\u043e", "\uff4f"}, 'n': {"\u00f1", "\uff4e"}, 's': {"\u017f", "\uff53", "5"}, 'y': {"\u0443", "\u00fd"},
	'i': {"\u0131", "l", "1"}, 'x': {"\u0445", "\u00d7"}, 'm': {"\uff4d", "rn"}, 'l': {"1", "I", "|"},
	'I': {"\u0130", "l", "1", "|"}, 'K': {"\u212a"}, 'S': {"\u017f", "$"}, 'A': {"\u0391", "\u0410", "\u00c5"}, 'E': {"\u0415", "\u00c9"}, 'T': {"\u0422"}, 'M': {"\u041c"}, 'D': {"\uff24"}, 'C': {"\u0421", "("}, 'Y': {"\u0423"}, 'N': {"\u039d"},
	'0': {"o", "O", "\u0660", "\uff10"}, '1': {"l", "\u0661", "\uff11"}, '.': {",", "\u3002", "\u00b7", ":"}, '-': {"\u2010", "\u2212", "_", "\u00ad"}, '_': {"-", "\u203f"},
	'<': {"\u2039", "\uff1c", "&lt;", "\u300a"}, '>': {"\u203a", "\uff1e", "&gt;"}, '!': {"\u00a1", "\uff01", "|"}, '?': {"\u00bf", "\uff1f", "\u037e"}, '[': {"(", "{", "\uff3b"}, ']': {")", "}", "\uff3d"}, '(': {"[", "{", "\uff08"}, ')': {"]", "}", "\uff09"},
	'#': {"\uff03", "%", "$"}, '&': {"\uff06", "%", "&amp;"}, ';': {"\u037e", ",", ":"}, '/': {"\\", "\u2044", "\u2215"}, '\'': {"\"", "\u2019", "`"}, '"': {"'", "\u201d", "''"}, '=': {"\uff1d", ":", "=="}, ' ': {"\u00a0", "\u3000", "\u2003", "\u0085", ""},
	'%': {"&", "\uff05", "\u066a"}, '|': {"\u2223", "/", ","}, ',': {"\uff0c", ";", "|"}, '*': {"\u00d7", "\u2217"}, '+': {"\uff0b", "&"},
}

// editWord changes a word a little
func editWord(t *rapid.T, w string) string {
	if w == "" {
		return pick(t, []string{"x", " ", "-"})
	}
	b := []byte(w)
	p := uni(t, len(b))
	flip := func(c byte) byte {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' {
			return c ^ 0x20
		}
		return c
	}
	switch ri(t, 0, 9) {
	case 0, 1: // the case of one letter
		b[p] = flip(b[p])
	case 2: // of some, or of all
		some := rb(t)
		for i := range b {
			if !some || rb(t) {
				b[i] = flip(b[i])
			}
		}
	case 3: // without a character
		return w[:p] + w[p+1:]
	case 4: // doubled
		return w[:p+1] + w[p:]
	case 5, 6: // something that looks the same
		if l := lookLike[b[p]]; l != nil {
			return w[:p] + pick(t, l) + w[p+1:]
		}
		b[p] = flip(b[p])
	case 7: // swapped
		if p+1 < len(b) {
			b[p], b[p+1] = b[p+1], b[p]
		}
	case 8: // another character in it
		return w[:p] + pick(t, []string{" ", "x", "-", ".", ":", "_", "1", "\n", "\u200b", "\ufeff", "\u0301", "&", "%"}) + w[p:]
	default: // before, or after
		x := pick(t, []string{" ", "x", "-", ".", ":", "_", "1", "S", "#", "&", "\u00a0", "\u200b", "\u0301"})
		if rb(t) {
			return x + w
		}
		return w + x
	}
	return string(b)
}

// keywords of XML, longest first where one starts with another
var keywords = []string{
	"<!DOCTYPE", "<!ELEMENT", "<!ATTLIST", "<!ENTITY", "<!NOTATION", "<![CDATA[", "<!--", "-->", "]]>", "<?xml", "<?", "?>", "/>", "</", "&#x", "&#",
	"EMPTY", "ANY", "#PCDATA", "CDATA", "#REQUIRED", "#IMPLIED", "#FIXED", "IDREFS", "IDREF", "ID", "NMTOKENS", "NMTOKEN", "ENTITIES", "ENTITY", "NOTATION", "SYSTEM", "PUBLIC", "NDATA",
	"version", "encoding", "standalone", "1.0", "yes", "no", "utf-8", "xmlns", "&lt;", "&gt;", "&amp;", "&apos;", "&quot;", " %", "=", "(", ")", "|", ",", ")*", "[", "]", "<", ">", "'", "\"", ";", "&", " ",
}

// editKeyword changes a keyword or a delimiter of the document. what says
// which one.
func editKeyword(t *rapid.T, src []byte) (out []byte, what string) {
	s := string(src)
	from := uni(t, len(keywords))
	for k := range keywords {
		w := keywords[(from+k)%len(keywords)]
		var at []int
		for i := 0; ; {
			j := strings.Index(s[i:], w)
			if j < 0 {
				break
			}
			at = append(at, i+j)
			i += j + len(w)
		}
		if len(at) == 0 {
			continue
		}
		p := at[uni(t, len(at))]
		x := editWord(t, w)
		if chance(t, 1, 6) {
			x = pick(t, keywords)
		}
		return []byte(s[:p] + x + s[p+len(w):]), w
	}
	return src, "none"
}

// soup concatenates tokens, with a bias to nearly well-formed results
func soup(t *rapid.T) []byte {
	var b []byte
	n := ri(t, 1, 14)
	open := []string{}
	for ; n > 0; n-- {
		switch ri(t, 0, 5) {
		case 0, 1:
			name := pick(t, []string{"a", "b"})
			open = append(open, name)
			b = append(b, "<"+name...)
			for k := ri(t, 0, 2); k > 0; k-- {
				b = append(b, pick(t, []string{" x='1'", " y=\"&amp;\"", " z = '<'", " x=1", " xmlns='urn:x'", " w='&#9;'", "q='1'"})...)
			}
			b = append(b, '>')
		case 2:
			if len(open) > 0 {
				b = append(b, "</"+open[len(open)-1]+">"...)
				open = open[:len(open)-1]
			}
		default:
			b = append(b, pick(t, tokens)...)
		}
	}
	if !chance(t, 1, 5) {
		for i := len(open) - 1; i >= 0; i-- {
			b = append(b, "</"+open[i]+">"...)
		}
	}
	return b
}

// genSource draws a document, most often by editing a well-formed one
func genSource(t *rapid.T) []byte {
	if chance(t, 1, 6) {
		return soup(t)
	}
	d := genDoc(t, GenOpt{MaxElems: 6})
	return mutate(t, spell(t, d), ri(t, 1, 3))
}
