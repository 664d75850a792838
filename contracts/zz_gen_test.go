package astra

import (
	"maps"
	"slices"
	"strings"

	"github.com/rs/zerolog"

	"github.com/ls6-events/astra/astTraversal"
	vc "github.com/ls6-events/astra/zzvc"
)

// Inputs for replaying failed obligations.
func init() {
	vc.GenType(func(g *vc.G) zerolog.Logger { return zerolog.Nop() })
	vc.GenType(func(g *vc.G) Service {
		s := Service{Log: zerolog.Nop()}
		s.Inputs = vc.Val[[]Input](g)
		s.Outputs = vc.Val[[]Output](g)
		s.Config = vc.Val[*Config](g)
		s.Routes = vc.Val[[]Route](g)
		s.Components = vc.Val[[]Field](g)
		s.PathDenyList = vc.Val[[]func(string) bool](g)
		s.CustomTypeMapping = map[string]TypeFormat{}
		key := func() string {
			if g.Intn(2) == 0 {
				return vc.Pick(g, "int", "string", "time.Time", "file", "a.b", "byte")
			}
			return g.Str()
		}
		for i := g.Intn(4); i > 0; i-- {
			s.CustomTypeMapping[key()] = vc.Val[TypeFormat](g)
		}
		if g.Intn(2) == 0 {
			s.fullTypeMapping = map[string]TypeFormat{}
			maps.Copy(s.fullTypeMapping, PredefinedTypeMap)
			maps.Copy(s.fullTypeMapping, s.CustomTypeMapping)
		}
		s.tempMainPackageName = g.Str()
		s.CLIMode = vc.Pick(g, CLIModeNone, CLIModeSetup, CLIModeBuilder)
		return s
	})
}

func init() {
	var conv func(r astTraversal.Result, f Field) bool
	conv = func(r astTraversal.Result, f Field) bool {
		in := func(t string) bool { return t != "" && !slices.Contains(AcceptedTypes, t) }
		pkg, key := "", ""
		if !slices.Contains(AcceptedTypes, r.Type) || r.Name != "" || in(r.SliceType) || in(r.ArrayType) || in(r.MapValueType) {
			pkg = zzPkgPath(r.Package)
		}
		if in(r.MapKeyType) {
			key = zzPkgPath(r.MapKeyPackage)
		}
		w := Field{Type: r.Type, Name: r.Name, EnumValues: r.EnumValues, IsEmbedded: r.IsEmbedded, SliceType: r.SliceType, ArrayType: r.ArrayType, ArrayLength: r.ArrayLength,
			MapKeyType: r.MapKeyType, MapValueType: r.MapValueType, StructFieldBindingTags: r.StructFieldBindingTags, StructFieldValidationTags: r.StructFieldValidationTags,
			Doc: strings.TrimSpace(r.Doc), Package: pkg, MapKeyPackage: key, StructFields: f.StructFields}
		if !vc.Same(w, f) || (f.StructFields == nil) != (r.StructFields == nil) || len(f.StructFields) != len(r.StructFields) {
			return false
		}
		for k, v := range r.StructFields {
			g, ok := f.StructFields[k]
			if !ok || !conv(v, g) {
				return false
			}
		}
		return true
	}
	vc.GhostFn("conv", func(a ...any) bool { return conv(a[0].(astTraversal.Result), a[1].(Field)) })
	vc.GenType(func(g *vc.G) *astTraversal.PackageNode {
		if g.Intn(6) == 0 {
			return nil
		}
		n := &astTraversal.PackageNode{}
		for i := g.Intn(4); i > 0; i-- {
			n = &astTraversal.PackageNode{Name: g.Str(), Parent: n}
		}
		return n
	})
	vc.GhostValFn("pathOf", func(a ...any) any { return a[0].(*astTraversal.PackageNode).Path() })
}
