package props

import "pgregory.net/rapid"

// genVarious draws documents from what the other properties are checked
// with, sometimes edited
func genVarious(t *rapid.T) []byte {
	var b []byte
	switch ri(t, 0, 9) {
	case 0, 1:
		c, _ := genAtts(t)
		b = c.Src
	case 2, 3:
		b = genEntCase(t).Src
	case 4:
		b = genWSCase(t).Src
	case 5:
		c := genPECase(t)
		b = c.src()
	case 6:
		b = genCMCase(t).Src
	case 7:
		b = genEntElem(t, rb(t)).Src
	case 8:
		b = genDetDoc(t)
	default:
		b = spell(t, &Doc{DTD: genCrowdedDTD(t), Root: &N{K: KElem, Name: "r"}})
	}
	if len(b) > 20000 {
		b = b[:20000]
	}
	if chance(t, 1, 4) {
		b = mutate(t, b, 1)
	}
	return b
}
