package utils

import (
	"regexp"

	"github.com/ls6-events/astra"
	vc "github.com/ls6-events/astra/zzvc"
)

// The placeholders of a path, from left to right: a marker, then every character up to the next slash, at least one.
func zzPlaceholders(path string) []string {
	return regexp.MustCompile(`[:*][^/]+`).FindAllString(path, -1)
}

//vc:contract ExtractParamsFromPath
//vc:prop C02
func zzExtractParamsFromPath(path string) {
	ms := zzPlaceholders(path)
	is := func(p *astra.Param, m string) bool {
		want := astra.Param{Name: m[1:], Field: astra.Field{Type: "string"}, IsRequired: m[0] == ':'}
		return vc.Same(*p, want)
	}
	vc.Invariant(func(v_i int, v_out []astra.Param) bool {
		return len(v_out) == v_i && vc.Forall(0, v_i, func(i int) bool { return is(&v_out[i], ms[i]) })
	})
	r := ExtractParamsFromPath(path)
	vc.Ensures("one parameter for each placeholder", len(r) == len(ms))
	vc.Ensures("in order, named after the marker, of type string, required exactly for ':'", vc.Forall(0, len(ms), func(i int) bool { return is(&r[i], ms[i]) }))
	vc.Ensures("a new list", vc.Fresh(r))
}

//vc:contract MapPathParams
//vc:prop C02
func zzMapPathParams(path string, repl func(string) string) {
	vc.Requires(repl != nil)
	r := MapPathParams(path, repl)
	vc.Ensures("each placeholder replaced, everything else kept", r == regexp.MustCompile(`[:*][^/]+`).ReplaceAllStringFunc(path, repl))
}
