package props

import (
	"errors"
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P18: walking visits every node of the subtree once, in document order.

type walkCase struct {
	Src  []byte // parsed, or:
	Doc  *Doc   // built
	Tape []byte
	Pick []int // where walks start, where they are stopped
}

// preorder lists a subtree without recursion, from the child and sibling
// links
func preorder(n helium.Node) (l []helium.Node, err error) {
	type frame struct{ next helium.Node }
	l = append(l, n)
	if n.Type() == helium.EntityRefNode {
		return l, nil
	}
	stack := []frame{{n.FirstChild()}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		if f.next == nil {
			stack = stack[:len(stack)-1]
			continue
		}
		c := f.next
		f.next = c.NextSibling()
		l = append(l, c)
		if len(l) > 2000000 {
			return nil, errorf("the links do not end")
		}
		if c.Type() != helium.EntityRefNode {
			stack = append(stack, frame{c.FirstChild()})
		}
	}
	return l, nil
}

func nodeSig(n helium.Node) string {
	switch n.Type() {
	case helium.TextNode, helium.CommentNode:
		return fmt.Sprintf("%s %q", n.Type(), n.Content())
	}
	return fmt.Sprintf("%s %s", n.Type(), n.Name())
}

// walkErr picks the error that stops a walk
func walkErr(n int) error {
	if n %= len(someErrs) + 1; n < len(someErrs) {
		return someErrs[n].err
	}
	return unspecified
}

func checkWalks(doc *helium.Document, picks []int) error {
	all, err := preorder(doc)
	if err != nil {
		return err
	}
	starts := append([]helium.Node(nil), all...)
	for _, n := range all {
		if e, ok := n.(*helium.Element); ok {
			for _, a := range e.Attributes() {
				starts = append(starts, a)
			}
		}
	}
	if len(picks) == 0 {
		picks = []int{0}
	}
	for k := 0; k < len(picks)+1 && k < 12; k++ {
		start := helium.Node(doc)
		if k > 0 {
			start = starts[abs(picks[k-1])%len(starts)]
		}
		want, err := preorder(start)
		if err != nil {
			return err
		}
		seen := map[helium.Node]bool{}
		var got []helium.Node
		werr := helium.Walk(start, func(n helium.Node) error {
			got = append(got, n)
			return nil
		})
		if werr != nil {
			return errorf("walking from %s fails: %v", nodeSig(start), werr)
		}
		for i, n := range got {
			if seen[n] {
				return errorf("walking from %s: %s is visited twice", nodeSig(start), nodeSig(n))
			}
			seen[n] = true
			if i >= len(want) {
				return errorf("walking from %s: %s is visited, beyond the subtree", nodeSig(start), nodeSig(n))
			}
			if n != want[i] {
				return errorf("walking from %s: visit number %d is %s, want %s", nodeSig(start), i+1, nodeSig(n), nodeSig(want[i]))
			}
		}
		if len(got) != len(want) {
			return errorf("walking from %s: %d visits, want %d", nodeSig(start), len(got), len(want))
		}
		// stopped at some place
		stop := abs(picks[k%len(picks)]/7) % len(want)
		stopErr := walkErr(picks[k%len(picks)] + k)
		calls := 0
		werr = helium.Walk(start, func(n helium.Node) error {
			calls++
			if calls == stop+1 {
				return stopErr
			}
			if calls > stop+1 {
				return errors.New("called after the error")
			}
			return nil
		})
		if werr != stopErr {
			return errorf("walking from %s, the function fails with %q in call %d: the result is %v", nodeSig(start), stopErr, stop+1, werr)
		}
		if calls != stop+1 {
			return errorf("walking from %s, the function fails in call %d: it is called %d times", nodeSig(start), stop+1, calls)
		}
	}
	return nil
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// modelOrder lists the nodes of the model the way a walk should
func modelOrder(d *Doc) (l []string) {
	var node func(n *N)
	node = func(n *N) {
		switch n.K {
		case KElem:
			l = append(l, "<"+n.Name)
			for _, k := range norm(n.Kids) {
				node(k)
			}
		case KText:
			l = append(l, fmt.Sprintf("t%q", n.Text))
		case KComm:
			l = append(l, fmt.Sprintf("c%q", n.Text))
		case KPI:
			l = append(l, "?"+n.Name)
		case KRef:
			l = append(l, "&"+n.Name)
		}
	}
	for _, n := range d.Before {
		node(n)
	}
	for _, n := range d.Mid {
		node(n)
	}
	node(d.Root)
	for _, n := range d.After {
		node(n)
	}
	return l
}

func walkOrder(doc *helium.Document) (l []string, err error) {
	err = helium.Walk(doc, func(n helium.Node) error {
		// what is in the document type declaration is not in the list
		for p := n.Parent(); p != nil; p = p.Parent() {
			if p.Type() == helium.DTDNode {
				return nil
			}
		}
		switch n.Type() {
		case helium.ElementNode:
			l = append(l, "<"+n.Name())
		case helium.TextNode, helium.CDATASectionNode:
			s := string(n.Content())
			if k := len(l); k > 0 && strings.HasPrefix(l[k-1], "t\"") && n.PrevSibling() != nil && n.PrevSibling().Type() == helium.TextNode {
				var prev string
				fmt.Sscanf(l[k-1][1:], "%q", &prev)
				l[k-1] = fmt.Sprintf("t%q", prev+s)
				return nil
			}
			l = append(l, fmt.Sprintf("t%q", s))
		case helium.CommentNode:
			l = append(l, fmt.Sprintf("c%q", n.Content()))
		case helium.ProcessingInstructionNode:
			l = append(l, "?"+n.Name())
		case helium.EntityRefNode:
			l = append(l, "&"+n.Name())
		}
		return nil
	})
	return l, err
}

func checkWalk(c walkCase) Out {
	var doc *helium.Document
	var err error
	out := Out{}
	if len(c.Src) > 0 || c.Doc == nil {
		out.Sample = string(c.Src)
		if doc, err = helium.Parse(c.Src); err != nil {
			out.Labels = []string{"rejected"}
			return out
		}
		out.Labels = append(out.Labels, "parsed")
	} else {
		if doc, _, err = build(c.Doc, &tape{b: c.Tape}); err != nil {
			out.Labels = []string{"refused"}
			return out
		}
		out.Sample = c.Doc.canon(canonOpt{})
		out.Labels = append(out.Labels, "built")
	}
	all, err := preorder(doc)
	if err != nil {
		out.Err = err
		return out
	}
	out.NonTrivial = len(all) > 5
	if c.Doc != nil {
		got, err := walkOrder(doc)
		if err != nil {
			out.Err = errorf("walking fails: %v", err)
			return out
		}
		a, b := strings.Join(modelOrder(c.Doc), "\n"), strings.Join(got, "\n")
		if a != b {
			out.Err = errorf("the walk is not in document order: %s\n%s", diffLines(a, b), out.Sample)
			return out
		}
		out.Labels = append(out.Labels, "against the model")
	}
	out.Err = checkWalks(doc, c.Pick)
	return out
}

func genPicks(t *rapid.T) []int {
	var l []int
	for i := ri(t, 1, 8); i > 0; i-- {
		l = append(l, uni(t, 5000))
	}
	return l
}

func init() {
	prop("P18", "at least 6 nodes")
	reg("P18", "parsed", 25000, 1200000, func(t *rapid.T) walkCase {
		c := walkCase{Pick: genPicks(t)}
		switch ri(t, 0, 7) {
		case 0:
			c.Src = genEntCase(t).Src
		case 1:
			c.Src = genSource(t)
		case 2:
			// deep and wide
			d, w := ri(t, 0, 300), ri(t, 0, 100)
			if chance(t, 1, 8) {
				if w = ri(t, 100, 6000); rb(t) {
					d, w = ri(t, 300, 4000), ri(t, 0, 300)
				}
			}
			c.Src = []byte(strings.Repeat("<a>", d) + "<b>" + strings.Repeat("<c/>x", w) + "</b>" + strings.Repeat("</a><d/>", d))
			c.Src = []byte("<r>" + string(c.Src) + "</r>")
		default:
			d := genDoc(t, GenOpt{MaxElems: 20})
			c.Src, c.Doc = spell(t, d), d
		}
		return c
	}, checkWalk)
	reg("P18", "built", 10000, 600000, func(t *rapid.T) walkCase {
		return walkCase{Doc: buildable(genDoc(t, GenOpt{})), Tape: genTape(t, 40), Pick: genPicks(t)}
	}, checkWalk)
}
