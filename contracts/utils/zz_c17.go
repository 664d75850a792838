package utils

import (
	"strings"

	vc "github.com/ls6-events/astra/zzvc"
)

//vc:contract SplitHandlerPath
//vc:prop C17
func zzSplitHandlerPath(s string) {
	h := SplitHandlerPath(s)
	p, q := h.PathParts, h.HandlerParts
	vc.Ensures("has a package part", len(p) >= 1)
	vc.Ensures("joins back with a handler part", len(q) == 0 || strings.Join(p, "/")+"."+strings.Join(q, ".") == s)
	vc.Ensures("joins back without a handler part", len(q) > 0 || strings.Join(p, "/") == s)
	vc.Ensures("no dot after the last slash of the package part", len(p) == 0 || !strings.Contains(p[len(p)-1], ".") && !strings.Contains(p[len(p)-1], "/"))
	vc.Ensures("package elements hold no slash", vc.Forall(0, len(p), func(i int) bool { return !strings.Contains(p[i], "/") }))
	vc.Ensures("handler elements hold no dot", vc.Forall(0, len(q), func(i int) bool { return !strings.Contains(q[i], ".") }))
}

//vc:contract HandlerPath.PackagePath
//vc:prop C17
func zzPackagePath(h HandlerPath) {
	r := h.PackagePath()
	vc.Ensures("elements joined with slashes", r == strings.Join(h.PathParts, "/"))
}

//vc:contract HandlerPath.Handler
//vc:prop C17
func zzHandler(h HandlerPath) {
	r := h.Handler()
	vc.Ensures("elements joined with dots", r == strings.Join(h.HandlerParts, "."))
}

//vc:contract HandlerPath.PackageName
//vc:prop C17
func zzPackageName(h HandlerPath) {
	vc.Requires(len(h.PathParts) >= 1)
	r := h.PackageName()
	vc.Ensures("last element of the package path", r == h.PathParts[len(h.PathParts)-1])
}

//vc:contract HandlerPath.FuncName
//vc:prop C17
func zzFuncName(h HandlerPath) {
	vc.Requires(len(h.HandlerParts) >= 1)
	r := h.FuncName()
	vc.Ensures("first element of the handler", r == h.HandlerParts[0])
}

//vc:lemma
//vc:prop C17
func zzSplitJoin(s string) {
	h := SplitHandlerPath(s)
	if len(h.HandlerParts) > 0 {
		vc.Ensures("package path, dot, handler give the name back", h.PackagePath()+"."+h.Handler() == s)
	} else {
		vc.Ensures("a name without handler is its package path", h.PackagePath() == s)
	}
	vc.Ensures("package name has no dot and no slash", !strings.Contains(h.PackageName(), ".") && !strings.Contains(h.PackageName(), "/"))
}
