package astTraversal

import (
	vc "github.com/ls6-events/astra/zzvc"
)

// zzFull is the path of a node: the names from below the root to the node, joined with slashes. Parent and name of a node never change
// after it was made, so that it does not depend on the state of the tree.
func zzFull(n *PackageNode) string { return vc.GhostVal[string]("fullPath", n) }

// zzPathOf is the path without its trailing slashes.
func zzPathOf(n *PackageNode) string { return vc.GhostVal[string]("pathOf", n) }

// zzPathDef is the definition of both for every node there is.
func zzPathDef() bool {
	return zzPathOf(nil) == "" && vc.ForallPtr(func(n *PackageNode) bool {
		if n.Parent == nil {
			return zzPathOf(n) == ""
		}
		full := n.Name
		if n.Parent.Parent != nil {
			full = zzFull(n.Parent) + "/" + n.Name
		}
		path := full
		if n.Name == "" {
			path = zzPathOf(n.Parent)
		}
		return zzFull(n) == full && zzPathOf(n) == path
	})
}

//vc:contract (*PackageNode).Path
//vc:prop C17
func zzPath(p *PackageNode) {
	vc.Assume("definition of a node's path (parent and name never change after construction)", zzPathDef())
	vc.Invariant(func(v_path string, v_cur *PackageNode) bool {
		return v_cur != nil && (v_path == "" && zzPathOf(v_cur) == zzPathOf(p) || v_path != "" && v_cur.Parent == nil && v_path == zzPathOf(p) ||
			v_path != "" && v_cur.Parent != nil && zzPathOf(p) == zzFull(v_cur)+"/"+v_path)
	})
	r := p.Path()
	vc.Ensures("names from below the root joined with slashes", r == zzPathOf(p))
}
