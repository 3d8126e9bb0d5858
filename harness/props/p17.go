package props

import (
	"fmt"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P17: options are independent switches.

type namedParse struct {
	name string
	v    helium.ParseOption
}

type namedLoad struct {
	name string
	v    helium.LoadSubsetOption
}

var parseOptions = []namedParse{
	{"ParseRecover", helium.ParseRecover}, {"ParseNoEnt", helium.ParseNoEnt}, {"ParseDTDLoad", helium.ParseDTDLoad}, {"ParseDTDAttr", helium.ParseDTDAttr}, {"ParseDTDValid", helium.ParseDTDValid},
	{"ParseNoError", helium.ParseNoError}, {"ParseNoWarning", helium.ParseNoWarning}, {"ParsePedantic", helium.ParsePedantic}, {"ParseNoBlanks", helium.ParseNoBlanks},
	{"ParseXInclude", helium.ParseXInclude}, {"ParseNoNet", helium.ParseNoNet}, {"ParseNoDict", helium.ParseNoDict}, {"ParseNsClean", helium.ParseNsClean}, {"ParseNoCDATA", helium.ParseNoCDATA}, {"ParseNoXIncNode", helium.ParseNoXIncNode}, {"ParseCompact", helium.ParseCompact},
	{"ParseNoBaseFix", helium.ParseNoBaseFix}, {"ParseHuge", helium.ParseHuge}, {"ParseIgnoreEnc", helium.ParseIgnoreEnc}, {"ParseBigLines", helium.ParseBigLines},
}

var loadOptions = []namedLoad{
	{"DetectIDs", helium.DetectIDs}, {"CompleteAttrs", helium.CompleteAttrs}, {"SkipIDs", helium.SkipIDs},
}

type optCase struct {
	Load bool
	Sets [][]int // each: the options that are set by one call
}

func checkOptions(c optCase) Out {
	n := len(parseOptions)
	name := func(i int) string { return parseOptions[i].name }
	var p helium.ParseOption
	var l helium.LoadSubsetOption
	set := func(is []int) {
		var v helium.ParseOption
		for _, i := range is {
			v |= parseOptions[i].v
		}
		p.Set(v)
	}
	isSet := func(i int) bool { return p.IsSet(parseOptions[i].v) }
	if c.Load {
		n = len(loadOptions)
		name = func(i int) string { return loadOptions[i].name }
		set = func(is []int) {
			var v helium.LoadSubsetOption
			for _, i := range is {
				v |= loadOptions[i].v
			}
			l.Set(v)
		}
		isSet = func(i int) bool { return l.IsSet(loadOptions[i].v) }
	}
	want := make([]bool, n)
	out := Out{Sample: fmt.Sprint(c)}
	check := func(what string) error {
		for i := range want {
			if isSet(i) != want[i] {
				return errorf("%s: %s reports %v, want %v", what, name(i), isSet(i), want[i])
			}
		}
		return nil
	}
	if out.Err = check("at the start"); out.Err != nil {
		return out
	}
	for k, is := range c.Sets {
		var names []string
		for j, i := range is {
			is[j] = i % n
			names = append(names, name(i%n))
			want[i%n] = true
		}
		set(is)
		if out.Err = check(fmt.Sprintf("step %d, after setting %v", k+1, names)); out.Err != nil {
			return out
		}
	}
	count := 0
	for _, w := range want {
		if w {
			count++
		}
	}
	out.NonTrivial = count > 0 && count < n
	if c.Load {
		out.Labels = []string{"subset loading"}
	} else {
		out.Labels = []string{"parsing"}
	}
	return out
}

// bits checks every option and every pair once
func checkBits(struct{ Pairs bool }) Out {
	out := Out{NonTrivial: true, Sample: "every option, every pair of options"}
	var vals []int
	var names []string
	for _, o := range parseOptions {
		vals, names = append(vals, int(o.v)), append(names, o.name)
	}
	groups := [][2]int{{0, len(vals)}}
	for _, o := range loadOptions {
		vals, names = append(vals, int(o.v)), append(names, o.name)
	}
	groups = append(groups, [2]int{groups[0][1], len(vals)})
	for _, g := range groups {
		for i := g[0]; i < g[1]; i++ {
			if vals[i] == 0 {
				return failf("%s is empty", names[i])
			}
			for j := i + 1; j < g[1]; j++ {
				if vals[i]&vals[j] != 0 {
					return failf("%s (%#x) and %s (%#x) share a bit", names[i], vals[i], names[j], vals[j])
				}
			}
		}
	}
	return out
}

func init() {
	prop("P17", "some options are set and some are not")
	s := reg("P17", "bits", 1, 1, func(t *rapid.T) struct{ Pairs bool } { return struct{ Pairs bool }{rb(t)} }, checkBits)
	s.single = true
	reg("P17", "settings", 30000, 1000000, func(t *rapid.T) optCase {
		c := optCase{Load: chance(t, 1, 4)}
		for i := ri(t, 0, 8); i > 0; i-- {
			var is []int
			for k := ri(t, 0, 3); k > 0 || len(is) == 0 && !chance(t, 1, 8); k-- {
				is = append(is, uni(t, len(parseOptions)))
			}
			c.Sets = append(c.Sets, is)
		}
		return c
	}, checkOptions)
}
