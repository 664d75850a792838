package astTraversal

import (
	"strings"

	vc "github.com/ls6-events/astra/zzvc"
)

func init() {
	vc.GenType(func(g *vc.G) *PackageNode {
		if g.Intn(6) == 0 {
			return nil
		}
		n := &PackageNode{}
		for i := g.Intn(4); i > 0; i-- {
			c := &PackageNode{Name: g.Str(), Parent: n}
			if g.Intn(6) == 0 {
				c.Name = ""
			}
			n.Edges = append(n.Edges, c)
			n = c
		}
		return n
	})
	full := func(n *PackageNode) string {
		s := n.Name
		for n = n.Parent; n != nil && n.Parent != nil; n = n.Parent {
			s = n.Name + "/" + s
		}
		return s
	}
	vc.GhostValFn("fullPath", func(a ...any) any { return full(a[0].(*PackageNode)) })
	vc.GhostValFn("pathOf", func(a ...any) any {
		n := a[0].(*PackageNode)
		for n != nil && n.Parent != nil && n.Name == "" {
			n = n.Parent
		}
		if n == nil || n.Parent == nil {
			return ""
		}
		return full(n)
	})
	vc.GenStr(func(g *vc.G) string {
		var b strings.Builder
		for i := g.Intn(4); i > 0; i-- {
			k := vc.Pick(g, "header", "form", "uri", "json", "xml", "yaml", "binding", "validate", "b")
			v := vc.Pick(g, "", "-", "a", "id", "-a", "required", "min=1")
			if g.Intn(2) == 0 {
				v += "," + vc.Pick(g, "", "omitempty", "required", "-", "string,omitempty", "omitempty,string", "omit")
			}
			b.WriteString(k + ":\"" + v + "\"" + vc.Pick(g, " ", " ", "  ", ""))
		}
		return b.String()
	})
}
