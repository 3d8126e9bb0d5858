package props

import (
	"fmt"
	"strings"

	"pgregory.net/rapid"
)

// ---- drawing helpers (all randomness comes from rapid) ----

var irCache = map[[2]int]*rapid.Generator[int]{}

// ri draws an integer in [lo,hi]
func ri(t *rapid.T, lo, hi int) int {
	if lo >= hi {
		return lo
	}
	k := [2]int{lo, hi}
	g := irCache[k]
	if g == nil {
		g = rapid.IntRange(lo, hi)
		if len(irCache) < 4096 {
			irCache[k] = g
		}
	}
	return g.Draw(t, "")
}

var boolGen = rapid.Bool()

func rb(t *rapid.T) bool { return boolGen.Draw(t, "") }

// chance is true in about n of d cases
func chance(t *rapid.T, n, d int) bool {
	return ri(t, 0, d-1) >= d-n
}

func pick[T any](t *rapid.T, l []T) T { return l[ri(t, 0, len(l)-1)] }

// uniform index, without the bias to small numbers
func uni(t *rapid.T, n int) int {
	if n <= 1 {
		return 0
	}
	v := 0
	for m := 1; m < n*4; m *= 2 {
		v *= 2
		if boolGen.Draw(t, "") {
			v++
		}
	}
	return v % n
}

// ---- characters ----

func isChar(r rune) bool {
	return r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0xD7FF || r >= 0xE000 && r <= 0xFFFD || r >= 0x10000 && r <= 0x10FFFF
}

func isBlank(r rune) bool { return r == ' ' || r == '\t' || r == '\n' || r == '\r' }

var boundary = []rune{0x7F, 0x80, 0x85, 0x9F, 0xA0, 0xB2, 0xBD, 0x2460, 0xD7, 0xDF, 0xE0, 0xF7, 0xFE, 0xFF, 0x100, 0x7FF, 0x800, 0xFFF, 0x1000, 0x2028, 0x2029, 0x3000, 0xD7FF, 0xE000, 0xFDCF, 0xFEFF, 0xFFFC, 0x10000, 0x1FFFF, 0x10FFFD, 0x10FFFF, 0xFB00, 0xB7, 0x300, 0x301, 0x345, 0x20AC, 0xAC00}

// genChar draws a legal XML character. U+FFFD is left out (recorded
// finding), and so is U+000D unless cr is set (it can only be written as a
// reference).
func genChar(t *rapid.T, cr bool) rune {
	for {
		var r rune
		switch ri(t, 0, 11) {
		case 0, 1, 2:
			r = rune(ri(t, 'a', 'z'))
		case 3:
			r = rune(ri(t, '0', '9'))
		case 4:
			r = pick(t, []rune{' ', ' ', '\n', '\t'})
		case 5, 6:
			r = pick(t, []rune("&<>\"']-?!;#%=/[*.:"))
		case 7:
			r = rune(ri(t, 0x20, 0x7E))
		case 8:
			r = rune(ri(t, 0xA0, 0x2FF))
		case 9:
			r = pick(t, boundary)
		case 10:
			r = rune(ri(t, 0x300, 0xD7FF))
		default:
			switch ri(t, 0, 3) {
			case 0:
				r = rune(ri(t, 0x10000, 0x10FFFF))
			case 1:
				r = rune(ri(t, 0xE000, 0xFFFC))
			case 2:
				r = rune(ri(t, 0x7F, 0x9F))
			default:
				if !cr {
					continue
				}
				r = '\r'
			}
		}
		if r == 0xFFFD || !isChar(r) {
			continue
		}
		return r
	}
}

// snippets are sequences that look like markup
var snippets = []string{"]]>", "--", "->", "-->", "<!--", "<![CDATA[", "&amp;", "&lt;", "&#65;", "&#x41;", "?>", "<?", "</", "/>", "&", "%", "%p;", "&#", "  ", "\n\n", " \t\n", "]]", "]", "--x", "\"'", "'\"", "é", "日本", "\U0001F600", "a b", "{}", "${x}", "&lt;a/&gt;", "&#60;", "&#38;", "]]&gt;", "\u2028", "x\u0301"}

// genText draws text of legal characters
func genText(t *rapid.T, min, max int, cr bool) string {
	var b strings.Builder
	n := ri(t, min, max)
	for i := 0; i < n; i++ {
		if chance(t, 1, 8) {
			b.WriteString(pick(t, snippets))
		} else {
			b.WriteRune(genChar(t, cr))
		}
	}
	return b.String()
}

// genLongText sometimes draws much longer text, to cross buffer sizes
func genLongText(t *rapid.T, cr bool) string {
	unit := genText(t, 1, 12, cr)
	n := ri(t, 1, 400)
	return strings.Repeat(unit, n)
}

// ---- names ----

// startRanges are the ranges of NameStartChar (XML 1.0, fifth edition)
// beyond ASCII; moreRanges those that NameChar adds
var (
	startRanges = [][2]rune{{0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x2FF}, {0x370, 0x37D}, {0x37F, 0x1FFF}, {0x200C, 0x200D}, {0x2070, 0x218F}, {0x2C00, 0x2FEF}, {0x3001, 0xD7FF}, {0xF900, 0xFDCF}, {0xFDF0, 0xFFFC}, {0x10000, 0xEFFFF}}
	moreRanges  = [][2]rune{{0xB7, 0xB7}, {0x300, 0x36F}, {0x203F, 0x2040}}
)

// commonStarts are ranges of characters names in practice start with
var commonStarts = [][2]rune{{0xC0, 0xD6}, {0xD8, 0xF6}, {0xF8, 0x131}, {0x391, 0x3A1}, {0x3B1, 0x3C9}, {0x410, 0x44F}, {0x4E00, 0x9FA5}, {0xAC00, 0xD7A3}, {0x3041, 0x3094}, {0x30A1, 0x30FA}, {0x5D0, 0x5EA}}

// oddStarts and oddChars are characters of all the categories there are: not
// letters, or letters that are easily overlooked
var (
	oddStarts = []rune{0x2B0, 0x37A, 0x3007, 0x2160, 0x2180, 0x3021, 0x212E, 0x20AC, 0x2103, 0x3012, 0xE01, 0xE40, 0x903, 0x93E, 0x20D0, 0x20DD, 0x302A, 0x3099, 0x660, 0x966, 0x387, 0x6DD, 0x200C, 0x200D, 0x2070, 0x207F, 0x1F600, 0x10000, 0x10400, 0x20000, 0xE0100, 0xEFFFF, 0xF900, 0xFB00, 0xFE20, 0xFF21, 0xFFFC, 0x1E00, 0x1FFF, 0x2C00, 0x2FEF, 0x3001, 0x3005, 0xA000, 0x1C5, 0x1BB, 0x1F88}
	oddChars  = []rune{0xB7, 0x300, 0x301, 0x345, 0x36F, 0x203F, 0x2040, 0x903, 0x93E, 0x488, 0x20DD, 0x20E0, 0x5BF, 0x64B, 0xE31, 0x3099, 0x309A, 0x302A, 0x302F, 0x660, 0x669, 0x966, 0xFF10, 0x1D7CE, 0x2D0, 0x640, 0xE46, 0x3005, 0x30FC, 0x6DD, 0xFE0F, 0xE0100}
)

func inRanges(l [][2]rune, r rune) bool {
	for _, p := range l {
		if r >= p[0] && r <= p[1] {
			return true
		}
	}
	return false
}

// isNameStart: a character a name may start with, but for the colon
func isNameStart(r rune) bool {
	return r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '_' || inRanges(startRanges, r)
}

func genNameStart(t *rapid.T) rune {
	switch ri(t, 0, 19) {
	case 0, 1:
		return rune(ri(t, 'A', 'Z'))
	case 2, 3:
		return '_'
	case 4:
		return pick(t, []rune{0xC0, 0xD6, 0xD8, 0xE9, 0xF6, 0xF8, 0xFF})
	case 5:
		r := pick(t, commonStarts)
		return rune(ri(t, int(r[0]), int(r[1])))
	case 6:
		return pick(t, oddStarts)
	case 7:
		r := pick(t, startRanges)
		return rune(ri(t, int(r[0]), int(r[1])))
	default:
		return rune(ri(t, 'a', 'z'))
	}
}

func genNameChar(t *rapid.T) rune {
	switch ri(t, 0, 9) {
	case 0, 1:
		return rune(ri(t, '0', '9'))
	case 2:
		return '-'
	case 3:
		return '.'
	case 4:
		return pick(t, oddChars)
	default:
		return genNameStart(t)
	}
}

var plainNames = []string{"a", "b", "c", "d", "item", "x1", "foo-bar", "a.b", "_u", "é", "日本", "A", "ab"}

// genNCName draws a name without colon
func genNCName(t *rapid.T) string {
	switch ri(t, 0, 11) {
	case 0, 1, 2:
	case 3:
		return lookalike(t, pick(t, plainNames[:3]))
	default:
		return pick(t, plainNames)
	}
	for {
		var b strings.Builder
		b.WriteRune(genNameStart(t))
		n := ri(t, 0, 5)
		if chance(t, 1, 40) {
			n = ri(t, 20, 300)
		}
		for i := 0; i < n; i++ {
			b.WriteRune(genNameChar(t))
		}
		s := b.String()
		if len(s) >= 3 && strings.EqualFold(s[:3], "xml") {
			continue // reserved
		}
		return s
	}
}

// lookalike draws a name that is easily taken for the given one: by ignoring
// case, by cutting long names, by leaving separators out, and so on
func lookalike(t *rapid.T, name string) string {
	p, l := prefixOf(name), local(name)
	if p == "xml" {
		return name
	}
	r := []rune(l)
	switch ri(t, 0, 8) {
	case 0:
		if u := strings.ToUpper(l); u != l {
			l = u
		} else {
			l = strings.ToLower(l)
		}
	case 1:
		l += string(r[0])
	case 2:
		l += pick(t, []string{"-", ".", "_", "0", "\u00b7", "\u0301"})
	case 3:
		l, p = p+l, ""
	case 4:
		l, p = l+p, ""
	case 5, 6:
		l += strings.Repeat("x", pick(t, []int{6, 14, 30, 62, 126, 254, 510, 1022})) + pick(t, []string{"", "y", "z"})
	case 7:
		if len(r) > 1 {
			l = string(r[:len(r)-1])
		}
	default:
		l = "_" + l
	}
	if len(l) >= 3 && strings.EqualFold(l[:3], "xml") || predef[l] != "" {
		return name
	}
	if p != "" {
		return p + ":" + l
	}
	return l
}

// lookalikes sometimes adds such names
func lookalikes(t *rapid.T, names []string) []string {
	names = names[:len(names):len(names)]
	if !chance(t, 1, 5) {
		return names
	}
	for k := ri(t, 1, 5); k > 0; k-- {
		if n := pick(t, names); n != "" {
			names = append(names, lookalike(t, n))
		}
	}
	return names
}

// lookalikePairs sometimes adds a pair of names that look like another pair
// once they are joined
func lookalikePairs(t *rapid.T, as, bs []string) ([]string, []string) {
	as, bs = as[:len(as):len(as)], bs[:len(bs):len(bs)]
	if !chance(t, 1, 8) {
		return as, bs
	}
	a, b := pick(t, as), pick(t, bs)
	if a == "" || strings.Contains(b, ":") {
		return as, bs
	}
	x, y := []rune(a), []rune(b)
	if rb(t) {
		x, y = append(x, y[0]), y[1:]
	} else {
		x, y = x[:len(x)-1], append([]rune{x[len(x)-1]}, y...)
	}
	if len(x) == 0 || len(y) == 0 || x[len(x)-1] == ':' || !isNameStart(y[0]) {
		return as, bs
	}
	return append(as, string(x)), append(bs, string(y))
}

// genPITarget draws a PI target, which may not be "xml"
func genPITarget(t *rapid.T) string {
	if chance(t, 1, 6) {
		return pick(t, []string{"xml-stylesheet", "xmlfoo", "xml-model", "php", "x"})
	}
	return genNCName(t)
}

func q(s string) string { return fmt.Sprintf("%q", s) }
