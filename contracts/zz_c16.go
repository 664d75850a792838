package astra

import (
	"strings"

	"github.com/ls6-events/astra/astTraversal"
	vc "github.com/ls6-events/astra/zzvc"
)

// zzConv: f is the conversion of r, at every depth.
func zzConv(r astTraversal.Result, f Field) bool { return vc.Ghost("conv", r, f) }

func zzPkgPath(n *astTraversal.PackageNode) string { return vc.GhostVal[string]("pathOf", n) }

func zzBasic(t string) bool {
	a := AcceptedTypes
	return vc.Exists(0, len(a), func(i int) bool { return a[i] == t })
}

func zzNotBasic(t string) bool { return t != "" && !zzBasic(t) }

//vc:contract ParseResultToField
//vc:prop C16
func zzParseResultToField(r astTraversal.Result) {
	vc.Invariant(func(f_m map[string]Field, v_vis func(k string) bool) bool {
		return f_m != nil && vc.ForallStr(func(k string) bool {
			v, ok := f_m[k]
			w, has := r.StructFields[k]
			return ok == (v_vis(k) && has) && (!ok || zzConv(w, v))
		})
	})
	f := ParseResultToField(r)
	vc.Ensures("type, name, enum values and embedding", f.Type == r.Type && f.Name == r.Name && vc.Same(f.EnumValues, r.EnumValues) && f.IsEmbedded == r.IsEmbedded)
	vc.Ensures("slice, array and map", f.SliceType == r.SliceType && f.ArrayType == r.ArrayType && f.ArrayLength == r.ArrayLength && f.MapKeyType == r.MapKeyType && f.MapValueType == r.MapValueType)
	vc.Ensures("tags", vc.Same(f.StructFieldBindingTags, r.StructFieldBindingTags) && vc.Same(f.StructFieldValidationTags, r.StructFieldValidationTags))
	vc.Ensures("trimmed documentation", f.Doc == strings.TrimSpace(r.Doc))
	vc.Ensures("not required", !f.IsRequired)
	pkg := ""
	if !zzBasic(r.Type) || r.Name != "" || zzNotBasic(r.SliceType) || zzNotBasic(r.ArrayType) || zzNotBasic(r.MapValueType) {
		pkg = zzPkgPath(r.Package)
	}
	vc.Ensures("package", f.Package == pkg)
	key := ""
	if zzNotBasic(r.MapKeyType) {
		key = zzPkgPath(r.MapKeyPackage)
	}
	vc.Ensures("map key package", f.MapKeyPackage == key)
	vc.Ensures("struct fields present", (f.StructFields == nil) == (r.StructFields == nil))
	vc.Ensures("every struct field converted, none added", vc.ForallStr(func(k string) bool {
		v, ok := f.StructFields[k]
		w, has := r.StructFields[k]
		return ok == has && (!ok || zzConv(w, v))
	}))
	vc.Define(zzConv(r, f))
}
