package openapi

import (
	"github.com/ls6-events/astra"
	"github.com/ls6-events/astra/astTraversal"
	vc "github.com/ls6-events/astra/zzvc"
)

// The type mapping is a function of name and package, and looking it up changes nothing else (C13).
func zzMapping(name, pkg string) (astra.TypeFormat, bool) {
	return vc.GhostVal[astra.TypeFormat]("typeMapping", name, pkg), vc.Ghost("isMapped", name, pkg)
}

//vc:model (*github.com/ls6-events/astra.Service).GetTypeMapping
func zzGetTypeMapping(s *astra.Service, key, pkg string) (astra.TypeFormat, bool) {
	return zzMapping(key, pkg)
}

func zzAccepted(t string) bool { return vc.Ghost("accepted", t) }

//vc:model github.com/ls6-events/astra.IsAcceptedType
func zzIsAcceptedType(t string) bool { return zzAccepted(t) }

// zzKey is the key of a component in the table of names.
func zzKey(bt astTraversal.BindingTagType, name, pkg string) string {
	if bt == astTraversal.NoBindingTag {
		return pkg + "." + name
	}
	return pkg + "." + string(bt) + "." + name
}

// zzName is the published name of a component for a binding, if it has one.
func zzName(bt astTraversal.BindingTagType, name, pkg string) (string, bool) {
	if n, ok := collisionSafeNames[zzKey(bt, name, pkg)]; ok {
		return n, true
	}
	n, ok := collisionSafeNames[zzKey(astTraversal.NoBindingTag, name, pkg)]
	return n, ok
}

// zzRef is the reference to a component, as long as the table of names does not change.
func zzRef(bt astTraversal.BindingTagType, name, pkg string) (string, bool) {
	return vc.GhostVal[string]("ref", string(bt), name, pkg), vc.Ghost("hasRef", string(bt), name, pkg)
}

//vc:contract collisionSafeKey
//vc:prop C05
func zzCollisionSafeKey(bt astTraversal.BindingTagType, name, pkg string) {
	vc.Ensures("package, binding and name", collisionSafeKey(bt, name, pkg) == zzKey(bt, name, pkg))
}

//vc:contract makeComponentRef
//vc:noreplay
//vc:prop C05
func zzMakeComponentRef(bt astTraversal.BindingTagType, name, pkg string) {
	r, ok := makeComponentRef(bt, name, pkg)
	w, has := zzRef(bt, name, pkg)
	vc.Ensures("not empty", !ok || r != "")
	vc.Define(ok == has && r == w)
}

//vc:contract makeComponentRef
//vc:standalone
//vc:prop C05
func zzComponentRef(bt astTraversal.BindingTagType, name, pkg string) {
	r, ok := makeComponentRef(bt, name, pkg)
	n, has := zzName(bt, name, pkg)
	vc.Ensures("a reference to the published name", ok == has && (!ok || r == "#/components/schemas/"+n))
	vc.Ensures("none without one", ok || r == "")
}

// zzBasicSchema is the schema of a predefined type.
func zzBasicSchema(t string) Schema {
	p := astra.PredefinedTypeMap[t]
	if p.Type == "" {
		return Schema{}
	}
	return Schema{Type: p.Type, Format: p.Format}
}

//vc:contract mapPredefinedTypeFormat
//vc:prop C05
func zzMapPredefinedTypeFormat(t string) {
	vc.Ensures("type and format of the predefined table", vc.Same(mapPredefinedTypeFormat(t), zzBasicSchema(t)))
}

// zzElemSchema is the schema of an element type: predefined, or a reference.
func zzElemSchema(bt astTraversal.BindingTagType, t, pkg string) Schema {
	s := zzBasicSchema(t)
	if s.Type == "" && !zzAccepted(t) {
		if r, ok := zzRef(bt, t, pkg); ok {
			return Schema{Ref: r}
		}
	}
	return s
}

// zzBind is the binding of a field: its own for the type, else its default one.
func zzBind(f astra.Field, bt astTraversal.BindingTagType) astTraversal.BindingTag {
	if b := f.StructFieldBindingTags[bt]; b != (astTraversal.BindingTag{}) {
		return b
	}
	return f.StructFieldBindingTags[astTraversal.NoBindingTag]
}

func zzIsBound(f astra.Field, bt astTraversal.BindingTagType) bool {
	return f.IsEmbedded || zzBind(f, bt) != astTraversal.BindingTag{}
}

// zzSchema: s is the schema of f for the binding, at every depth; zzHas: there is one.
func zzSchema(f astra.Field, bt astTraversal.BindingTagType, s Schema) bool {
	return vc.Ghost("schema", f, string(bt), s)
}

func zzHas(f astra.Field, bt astTraversal.BindingTagType) bool {
	return vc.Ghost("hasSchema", f, string(bt))
}

// zzShown: the field is a property of its struct.
func zzShown(f astra.Field, bt astTraversal.BindingTagType) bool {
	return !f.IsEmbedded && !zzBind(f, bt).NotShown && zzHas(f, bt)
}

// zzFrom: the properties are those of fields in the set.
func zzFrom(fields map[string]astra.Field, in func(k string) bool, bt astTraversal.BindingTagType, props map[string]Schema) bool {
	return vc.AllKeys(props, func(p string) bool {
		return vc.AnyKey(fields, func(k string) bool {
			f := fields[k]
			return in(k) && zzShown(f, bt) && zzBind(f, bt).Name == p && zzSchema(f, bt, props[p])
		})
	})
}

// zzAll: every visible field in the set has a property.
func zzAll(fields map[string]astra.Field, in func(k string) bool, bt astTraversal.BindingTagType, props map[string]Schema) bool {
	return vc.AllKeys(fields, func(k string) bool {
		return !in(k) || !zzShown(fields[k], bt) || vc.Has(props, zzBind(fields[k], bt).Name)
	})
}

// zzRefsFrom: the first n schemas are references of embedded fields in the set.
func zzRefsFrom(fields map[string]astra.Field, in func(k string) bool, bt astTraversal.BindingTagType, refs []Schema, n int) bool {
	return vc.Forall(0, n, func(i int) bool {
		r := refs[i].Ref
		return vc.Same(refs[i], Schema{Ref: r}) && r != "" && vc.AnyKey(fields, func(k string) bool {
			w, ok := zzRef(bt, fields[k].Type, fields[k].Package)
			return in(k) && fields[k].IsEmbedded && ok && w == r
		})
	})
}

// zzRefsAll: every embedded field in the set that has a reference is among the first n schemas.
func zzRefsAll(fields map[string]astra.Field, in func(k string) bool, bt astTraversal.BindingTagType, refs []Schema, n int) bool {
	return vc.AllKeys(fields, func(k string) bool {
		w, ok := zzRef(bt, fields[k].Type, fields[k].Package)
		return !in(k) || !fields[k].IsEmbedded || !ok || vc.Exists(0, n, func(i int) bool { return refs[i].Ref == w })
	})
}

//vc:contract componentToSchema
//vc:noreplay
//vc:prop C05
func zzComponentToSchema(s *astra.Service, c astra.Field, bt astTraversal.BindingTagType) {
	vc.Requires(s != nil)
	fields := c.StructFields
	tf, mapped := zzMapping(c.Name, c.Package)
	vc.Invariant(func(v_vis func(k string) bool) bool {
		return vc.AllKeys(fields, func(k string) bool { return !v_vis(k) || zzIsBound(fields[k], bt) })
	})
	r, bound := componentToSchema(s, c, bt)
	vc.Ensures("bound unless a field lacks a binding", bound == (mapped || c.Type != "struct" || vc.AllKeys(fields, func(k string) bool { return zzIsBound(fields[k], bt) })))
	switch {
	case mapped:
		w := Schema{}
		if tf.Type != "" {
			w = Schema{Type: tf.Type, Format: tf.Format}
		}
		vc.Ensures("a mapped type is what it is mapped to", vc.Same(r, w))
	case c.Type == "slice":
		vc.Ensures("a list of the element type", r.Items != nil && vc.Same(r, Schema{Type: "array", Items: r.Items}) && vc.Same(*r.Items, zzElemSchema(bt, c.SliceType, c.Package)))
	case c.Type == "array":
		vc.Ensures("a list of the element type, with its length", r.Items != nil && vc.Same(r, Schema{Type: "array", Items: r.Items, MaxLength: int(c.ArrayLength)}) && vc.Same(*r.Items, zzElemSchema(bt, c.ArrayType, c.Package)))
	case c.Type == "map":
		vc.Ensures("an object of the value type", r.AdditionalProperties != nil && vc.Same(r, Schema{Type: "object", AdditionalProperties: r.AdditionalProperties}) && vc.Same(*r.AdditionalProperties, zzElemSchema(bt, c.MapValueType, c.Package)))
	case c.Type != "struct":
		w := zzElemSchema(bt, c.Type, c.Package)
		if w.Type != "" || zzAccepted(c.Type) {
			w.Enum = c.EnumValues
		}
		vc.Ensures("the type itself", vc.Same(r, w))
	}
	vc.Define(bound == zzHas(c, bt))
	vc.Define(!bound || zzSchema(c, bt, r))
}

// The properties and references of a struct.
//
//vc:contract componentToSchema
//vc:standalone
//vc:noreplay
//vc:prop C05
func zzStructSchema(s *astra.Service, c astra.Field, bt astTraversal.BindingTagType) {
	c.Type = "struct"
	_, mapped := zzMapping(c.Name, c.Package)
	vc.Requires(s != nil && !mapped)
	fields := c.StructFields
	vc.Invariant(func(v_vis func(k string) bool, f_schema Schema) bool {
		return zzFrom(fields, v_vis, bt, f_schema.Properties)
	})
	vc.Invariant(func(v_vis func(k string) bool, f_schema Schema) bool {
		return zzAll(fields, v_vis, bt, f_schema.Properties)
	})
	vc.Invariant(func(v_vis func(k string) bool, f_properties map[string]Schema) bool {
		return zzFrom(fields, v_vis, bt, f_properties)
	})
	vc.Invariant(func(v_vis func(k string) bool, f_properties map[string]Schema) bool {
		return zzAll(fields, v_vis, bt, f_properties)
	})
	vc.Invariant(func(v_vis func(k string) bool, v_refs []Schema) bool {
		return zzRefsFrom(fields, v_vis, bt, v_refs, len(v_refs))
	})
	vc.Invariant(func(v_vis func(k string) bool, v_refs []Schema) bool {
		return zzRefsAll(fields, v_vis, bt, v_refs, len(v_refs))
	})
	r, bound := componentToSchema(s, c, bt)
	if !bound {
		return
	}
	vc.Ensures("an object", vc.Same(r, Schema{Type: "object", Properties: r.Properties, AllOf: r.AllOf}))
	all := func(k string) bool { return true }
	n, props := len(r.AllOf), r.Properties
	if n > 0 && r.AllOf[n-1].Ref == "" {
		n--
		props = r.AllOf[n].Properties
		vc.Ensures("properties next to the references", r.Properties == nil && vc.Same(r.AllOf[n], Schema{Properties: props}))
	}
	vc.Ensures("every property is a visible field, under its name, with its schema", zzFrom(fields, all, bt, props))
	vc.Ensures("every visible field is a property", zzAll(fields, all, bt, props))
	vc.Ensures("only references of embedded fields", zzRefsFrom(fields, all, bt, r.AllOf, n))
	vc.Ensures("a reference for each embedded field", zzRefsAll(fields, all, bt, r.AllOf, n))
}
