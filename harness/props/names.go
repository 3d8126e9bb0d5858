package props

import (
	"strings"
	"unicode"

	"pgregory.net/rapid"
)

// Names: which characters may start and which may continue a name, at every
// place a name occurs in. The oracle is the list of ranges of XML 1.0 (fifth
// edition), by way of the reference parser.

var namePlaces = []string{
	"<@/>", "<@></@>", "<@>x</@>", "<p:@ xmlns:p='urn:p'/>", "<@:p xmlns:@='urn:p'></@:p>",
	"<r @='v'/>", "<r a='' @='v'/>", "<r xmlns:p='urn:p' p:@='v'/>", "<r xmlns:@='urn:p' @:p='v'/>",
	"<?@?><r/>", "<r><?@ x?></r>", "<r/><?@?>", "<!DOCTYPE r [<?@ y?>]><r/>",
	"<!DOCTYPE @><@/>", "<!DOCTYPE @[]><@/>", "<!DOCTYPE\n@\n><@\n/>",
	"<!DOCTYPE r [<!ELEMENT @ EMPTY>]><r/>", "<!DOCTYPE r [<!ELEMENT r (@)>]><r/>", "<!DOCTYPE r [<!ELEMENT r (a,(@|b)*)>]><r/>", "<!DOCTYPE r [<!ELEMENT r (#PCDATA|@)*>]><r/>", "<!DOCTYPE r [<!ELEMENT p:@ ANY>]><r/>",
	"<!DOCTYPE r [<!ATTLIST @ a CDATA ''>]><r/>", "<!DOCTYPE r [<!ATTLIST r @ CDATA #IMPLIED>]><r/>", "<!DOCTYPE r [<!ATTLIST r a (@) #REQUIRED>]><r/>", "<!DOCTYPE r [<!ATTLIST r a (x|@|y) 'x'>]><r/>", "<!DOCTYPE r [<!ATTLIST r a NOTATION (x|@) #IMPLIED>]><r/>", "<!DOCTYPE r [<!ATTLIST r a NMTOKENS '@' b NMTOKEN #IMPLIED>]><r/>",
	"<!DOCTYPE r [<!ENTITY @ 'v'>]><r>&@;</r>", "<!DOCTYPE r [<!ENTITY @ 'v'>]><r a='&@;'/>", "<!DOCTYPE r [<!ENTITY @ 'v'><!ENTITY e '&@;'>]><r>&e;</r>", "<!DOCTYPE r [<!ENTITY @ 'v'><!ATTLIST r a CDATA '&@;'>]><r/>",
	"<!DOCTYPE r [<!ENTITY % @ ''>%@;]><r/>", "<!DOCTYPE r [<!ENTITY e '<@/>'>]><r>&e;</r>", "<!DOCTYPE r [<!ENTITY e '<a @=\"\"></a>'>]><r>&e;</r>",
}

type nameCase struct {
	Src   []byte
	Place string
	Name  string
	R     rune
}

func (c *nameCase) input() []byte { return c.Src }
func (c *nameCase) withInput(b []byte) interface{} {
	return &nameCase{Src: b, Place: c.Place, Name: c.Name, R: c.R}
}

// genNameRune draws from the ends of the ranges, from the characters of every
// category, and from everywhere
func genNameRune(t *rapid.T) rune {
	for {
		var r rune
		switch ri(t, 0, 5) {
		case 0, 1:
			l := startRanges
			if chance(t, 1, 4) {
				l = moreRanges
			}
			r = pick(t, l)[ri(t, 0, 1)] + rune(ri(t, -2, 2))
		case 2:
			r = pick(t, append(append([]rune{0xAA, 0xB5, 0xBA, 0x37E, 0x2015, 0x200B, 0x2028, 0x2190, 0x2460, 0x3000, 0xE000, 0xF8FF, 0xF0000, 0x10FFFD, 0x85, 0xA0, 0xBD, 0xB2}, oddStarts...), oddChars...))
		case 3:
			r = rune(ri(t, 0x21, 0x7E))
		case 4:
			r = rune(ri(t, 0xA0, 0xFFFC))
		default:
			r = rune(ri(t, 0x10000, 0x10FFFF))
		}
		if isChar(r) && !isBlank(r) && r != 0xFFFD {
			return r
		}
	}
}

func genNameCase(t *rapid.T) nameCase {
	c := nameCase{Place: namePlaces[uni(t, len(namePlaces))], R: genNameRune(t)}
	switch ri(t, 0, 4) {
	case 0:
		c.Name = string(c.R)
	case 1:
		c.Name = string(c.R) + genNCName(t)
	case 2:
		c.Name = genNCName(t) + string(c.R)
	case 3:
		c.Name = string(genNameStart(t)) + string(c.R) + string(genNameChar(t))
	default:
		c.Name = string(genNameStart(t)) + strings.Repeat(string(c.R), ri(t, 1, 40))
	}
	c.Src = []byte(strings.ReplaceAll(c.Place, "@", c.Name))
	return c
}

func category(r rune) string {
	for _, k := range []string{"Lu", "Ll", "Lt", "Lm", "Lo", "Mn", "Mc", "Me", "Nd", "Nl", "No", "Cf", "Co"} {
		if unicode.Is(unicode.Categories[k], r) {
			return k
		}
	}
	if unicode.IsPunct(r) || unicode.IsSymbol(r) {
		return "P,S"
	}
	return "other"
}

func init() {
	reg("P01", "names", 10000, 500000, genNameCase, func(c nameCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{r.V.String(), category(c.R)}, Sample: string(c.Src)}
		if r.V != vOK {
			return out
		}
		out.NonTrivial = c.R >= 0x80
		out.Err = checkTree(c.Src, r.Doc, canonOpt{})
		return out
	})
	reg("P02", "names", 10000, 500000, genNameCase, func(c nameCase) Out {
		r := refParse(c.Src)
		out := Out{Labels: []string{r.V.String(), category(c.R)}, Sample: string(c.Src)}
		if r.V != vBad {
			return out
		}
		out.NonTrivial = c.R >= 0x80
		out.Err = mustReject(c.Src, r.Msg)
		return out
	})
}
