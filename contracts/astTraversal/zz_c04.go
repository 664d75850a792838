package astTraversal

import (
	"reflect"
	"strings"

	vc "github.com/ls6-events/astra/zzvc"
)

// The binding tags and the validation tags.
func zzBindingKey(k BindingTagType) bool {
	return k == "header" || k == "form" || k == "uri" || k == "json" || k == "xml" || k == "yaml"
}

func zzValidationKey(k ValidationTagType) bool { return k == "binding" || k == "validate" }

func zzHasTag(tag string, k string) bool { _, ok := reflect.StructTag(tag).Lookup(k); return ok }

func zzAnyTag(tag string) bool {
	return zzHasTag(tag, "header") || zzHasTag(tag, "form") || zzHasTag(tag, "uri") || zzHasTag(tag, "json") || zzHasTag(tag, "xml") || zzHasTag(tag, "yaml")
}

// zzIsBinding: b is the binding that the tag k of a field stands for.
func zzIsBinding(b BindingTag, field, tag, k string) bool {
	v, _ := reflect.StructTag(tag).Lookup(k)
	items := strings.Split(v, ",")
	return b.NotShown == (items[0] == "-") && b.ReturnOptional == (len(items) > 1 && items[1] == "omitempty") &&
		(items[0] != "" || b.Name == field) && (items[0] == "" || items[0] == "-" || b.Name == items[0])
}

//vc:contract ParseStructTag
//vc:prop C04
func zzParseStructTag(field, tag string) {
	get := func(k string) string { return reflect.StructTag(tag).Get(k) }
	vc.Invariant(func(v_i int, f_bindingTags BindingTagMap) bool {
		return vc.ForallStr(func(k string) bool {
			_, ok := f_bindingTags[BindingTagType(k)]
			return ok == (zzHasTag(tag, k) && vc.Exists(0, v_i, func(i int) bool { return string(BindingTags[i]) == k }))
		})
	})
	vc.Invariant(func(f_bindingTags BindingTagMap) bool {
		return vc.ForallStr(func(k string) bool {
			b, ok := f_bindingTags[BindingTagType(k)]
			return !ok || zzIsBinding(b, field, tag, k)
		})
	})
	vc.Invariant(func(v_i int, f_validationTags ValidationTagMap) bool {
		return vc.ForallStr(func(k string) bool {
			v, ok := f_validationTags[ValidationTagType(k)]
			return ok == (get(k) != "" && vc.Exists(0, v_i, func(i int) bool { return string(ValidationTags[i]) == k })) && (!ok || v.IsRequired == strings.Contains(get(k), "required"))
		})
	})
	bs, vs := ParseStructTag(field, tag)
	d, hasDefault := bs[""]
	vc.Ensures("a binding for each binding tag that is present, as it says", vc.ForallStr(func(k string) bool {
		b, ok := bs[BindingTagType(k)]
		return k == "" || ok == (zzBindingKey(BindingTagType(k)) && zzHasTag(tag, k)) && (!ok || zzIsBinding(b, field, tag, k))
	}))
	vc.Ensures("a default binding exactly when there is no binding tag", hasDefault == !zzAnyTag(tag) && (!hasDefault || d.Name == field && !d.NotShown && !d.ReturnOptional))
	vc.Ensures("a validation for each validation tag with a value, required when it says so", vc.ForallStr(func(k string) bool {
		v, ok := vs[ValidationTagType(k)]
		return ok == (zzValidationKey(ValidationTagType(k)) && get(k) != "") && (!ok || v.IsRequired == strings.Contains(get(k), "required"))
	}))
	vc.Ensures("new maps", vc.Fresh(bs) && vc.Fresh(vs))
}

//vc:model (reflect.StructTag).Get
func zzStructTagGet(t reflect.StructTag, k string) string {
	v, ok := t.Lookup(k)
	if !ok {
		return ""
	}
	return v
}
