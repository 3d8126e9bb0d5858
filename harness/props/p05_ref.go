package props

import (
	"fmt"
	"strings"

	"github.com/lestrrat-go/helium"
	"pgregory.net/rapid"
)

// P05: reference nodes made through the API.

type refNode struct {
	Kind string // "text", "char", "ref", "elem"
	Text string // what it is made from
	Name string // of a reference
	Is   string // the text it stands for
}

type refBuild struct{ Nodes []refNode }

func genRefBuild(t *rapid.T) refBuild {
	var c refBuild
	for i := ri(t, 1, 8); i > 0; i-- {
		n := refNode{}
		switch ri(t, 0, 4) {
		case 0, 1:
			n.Kind = "char"
			r := genChar(t, true)
			n.Is = string(r)
			n.Name = fmt.Sprintf(pick(t, []string{"#%d", "#x%x", "#x%X", "#0%d", "#x00%x"}), r)
			n.Text = refForm(t, n.Name)
		case 2:
			n.Kind = "ref"
			n.Name, n.Is = "amp", "&"
			switch ri(t, 0, 5) {
			case 0:
				n.Name, n.Is = "lt", "<"
			case 1:
				n.Name, n.Is = "quot", `"`
			case 2, 3:
				n.Name, n.Is = "e", "[e]"
			}
			n.Text = refForm(t, n.Name)
		case 3:
			n.Kind, n.Text = "text", genText(t, 1, 5, true)
			n.Is = n.Text
		default:
			n.Kind, n.Text = "elem", genNCName(t)
		}
		c.Nodes = append(c.Nodes, n)
	}
	return c
}

// refForm is one of the ways to write the name of a reference
func refForm(t *rapid.T, name string) string {
	return pick(t, []string{"", "", "&"}) + name
}

func checkRefBuild(c refBuild) Out {
	out := Out{Sample: fmt.Sprintf("%q", c.Nodes), NonTrivial: len(c.Nodes) > 1}
	doc := helium.NewDocument("1.0", "", helium.StandaloneImplicitNo)
	if _, err := doc.CreateInternalSubset("r", "", ""); err != nil {
		return failf("%v", err)
	}
	if _, err := doc.AddEntity("e", helium.InternalGeneralEntity, "", "", "[e]"); err != nil {
		return failf("%v", err)
	}
	root, err := doc.CreateElement("r")
	if err != nil {
		return failf("%v", err)
	}
	if err := doc.AddChild(root); err != nil {
		return failf("%v", err)
	}
	var want strings.Builder
	for _, n := range c.Nodes {
		var x helium.Node
		var err error
		switch n.Kind {
		case "text":
			x, err = doc.CreateText([]byte(n.Text))
		case "elem":
			x, err = doc.CreateElement(n.Text)
		default:
			var r *helium.EntityRef
			text := n.Text
			if strings.HasPrefix(text, "&") && len(text)%2 == 0 {
				text += ";"
			}
			if n.Kind == "char" {
				r, err = doc.CreateCharRef(text)
			} else {
				r, err = doc.CreateReference(text)
			}
			if err == nil && (r.Name() != n.Name || r.Type() != helium.EntityRefNode || r.OwnerDocument() != doc) {
				return failf("a reference made from %q is %s %q", text, r.Type(), r.Name())
			}
			if err == nil && n.Kind == "ref" && string(r.Content()) != n.Is {
				return failf("the content of the reference to %s is %q", n.Name, r.Content())
			}
			x = r
		}
		if err == nil {
			err = root.AddChild(x)
		}
		if err != nil {
			return failf("%q: %v", n, err)
		}
		if n.Kind == "elem" {
			want.WriteString("<" + n.Text + ">")
		}
		want.WriteString(n.Is)
	}
	if _, err := doc.CreateCharRef(""); err == nil {
		return failf("a reference without name is made")
	}
	s, err := doc.XMLString()
	if err != nil {
		return failf("serialising: %v", err)
	}
	back, err := helium.Parse([]byte(s))
	if err != nil {
		return failf("reading it back: %v: %s", err, show([]byte(s)))
	}
	var got strings.Builder
	err = helium.Walk(back, func(n helium.Node) error {
		switch n.Type() {
		case helium.TextNode, helium.EntityRefNode:
			if n.Parent() != nil && n.Parent().Type() == helium.ElementNode {
				got.Write(n.Content())
			}
		case helium.ElementNode:
			if n.Parent().Type() == helium.ElementNode {
				got.WriteString("<" + n.Name() + ">")
			}
		}
		return nil
	})
	if err != nil || got.String() != want.String() {
		return failf("the references stand for %q instead of %q, %v: %s", got.String(), want.String(), err, show([]byte(s)))
	}
	return out
}

func init() {
	reg("P05", "references", 8000, 400000, genRefBuild, checkRefBuild)
}
