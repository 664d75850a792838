package astra

import (
	vc "github.com/ls6-events/astra/zzvc"
)

// zzMapped is the mapping of a key: custom mappings win over the predefined table.
func zzMapped(custom, pre map[string]TypeFormat, k string) (TypeFormat, bool) {
	if v, ok := custom[k]; ok {
		return v, true
	}
	v, ok := pre[k]
	return v, ok
}

// zzTypeCacheOK: the merged table, when there is one, agrees with the custom and the predefined mappings.
func zzTypeCacheOK(s *Service) bool {
	full, custom, pre := s.fullTypeMapping, s.CustomTypeMapping, PredefinedTypeMap
	return full == nil || vc.ForallStr(func(k string) bool {
		v, ok := full[k]
		w, has := zzMapped(custom, pre, k)
		return ok == has && v == w
	})
}

func zzSeparateMaps(s *Service) bool {
	return vc.Ref(s.fullTypeMapping) != vc.Ref(PredefinedTypeMap) && vc.Ref(s.CustomTypeMapping) != vc.Ref(PredefinedTypeMap) &&
		(s.fullTypeMapping == nil || vc.Ref(s.fullTypeMapping) != vc.Ref(s.CustomTypeMapping))
}

//vc:contract IsAcceptedType
//vc:prop C13
func zzIsAcceptedType(t string) {
	a := vc.Snap(AcceptedTypes)
	r := IsAcceptedType(t)
	vc.Ensures("listed", r == vc.Exists(0, len(a), func(i int) bool { return a[i] == t }))
}

//vc:contract (*Service).GetTypeMapping
//vc:prop C13
func zzGetTypeMapping(s *Service, key, pkg string) {
	vc.Requires(s != nil)
	vc.Requires(zzTypeCacheOK(s))
	vc.Requires(zzSeparateMaps(s))
	vc.Modifies(s)
	a, custom, pre := AcceptedTypes, s.CustomTypeMapping, PredefinedTypeMap
	want := *s
	k := key
	if !vc.Exists(0, len(a), func(i int) bool { return a[i] == key }) {
		k = pkg + "." + key
	}
	w, has := zzMapped(custom, pre, k)
	v, ok := s.GetTypeMapping(key, pkg)
	vc.Ensures("found exactly when mapped", ok == has)
	vc.Ensures("custom mapping, else predefined", v == w)
	want.fullTypeMapping = s.fullTypeMapping
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
	vc.Ensures("merged table consistent", zzTypeCacheOK(s))
	vc.Ensures("tables stay separate", zzSeparateMaps(s))
}

//vc:lemma
//vc:prop C13
func zzWithCustomTypeMapping(s *Service, m map[string]TypeFormat) {
	vc.Requires(s != nil && s.CustomTypeMapping != nil)
	vc.Requires(zzTypeCacheOK(s))
	vc.Requires(zzSeparateMaps(s))
	vc.Requires(vc.Ref(m) != vc.Ref(s.CustomTypeMapping) && vc.Ref(m) != vc.Ref(s.fullTypeMapping))
	vc.Modifies(s, s.CustomTypeMapping)
	old := vc.SnapMap(s.CustomTypeMapping)
	want := *s
	vc.Invariant(func(v_vis func(k string) bool) bool {
		now := s.CustomTypeMapping
		return vc.ForallStr(func(k string) bool {
			v, ok := now[k]
			w, has := m[k]
			if !v_vis(k) {
				w, has = old[k]
			}
			return ok == has && v == w
		})
	})
	WithCustomTypeMapping(m)(s)
	now := s.CustomTypeMapping
	vc.Ensures("adds or replaces exactly the named keys", vc.ForallStr(func(k string) bool {
		v, ok := now[k]
		w, has := zzMapped(m, old, k)
		return ok == has && v == w
	}))
	want.fullTypeMapping = s.fullTypeMapping
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
	vc.Ensures("later lookups see the mapping", zzTypeCacheOK(s))
	vc.Ensures("tables stay separate", zzSeparateMaps(s))
}

//vc:lemma
//vc:prop C13
func zzWithCustomTypeMappingSingle(s *Service, key, typ, format string) {
	vc.Requires(s != nil && s.CustomTypeMapping != nil)
	vc.Requires(zzTypeCacheOK(s))
	vc.Requires(zzSeparateMaps(s))
	vc.Modifies(s, s.CustomTypeMapping)
	old := vc.SnapMap(s.CustomTypeMapping)
	want := *s
	WithCustomTypeMappingSingle(key, typ, format)(s)
	now := s.CustomTypeMapping
	vc.Ensures("adds or replaces exactly the named key", vc.ForallStr(func(k string) bool {
		v, ok := now[k]
		if k == key {
			return ok && v == TypeFormat{Type: typ, Format: format}
		}
		w, has := old[k]
		return ok == has && v == w
	}))
	want.fullTypeMapping = s.fullTypeMapping
	vc.Ensures("service otherwise unchanged", vc.Same(*s, want))
	vc.Ensures("later lookups see the mapping", zzTypeCacheOK(s))
	vc.Ensures("tables stay separate", zzSeparateMaps(s))
}

func zzPre(k, t, f string) bool {
	v, ok := PredefinedTypeMap[k]
	return ok && v.Type == t && v.Format == f
}

// The predefined table as documented.
//
//vc:lemma
//vc:prop C13
func zzPredefinedTable() {
	vc.Ensures("integers", zzPre("int", "integer", "int32") && zzPre("int8", "integer", "int8") && zzPre("int16", "integer", "int16") && zzPre("int32", "integer", "int32") && zzPre("int64", "integer", "int64"))
	vc.Ensures("unsigned", zzPre("uint", "integer", "uint") && zzPre("uint8", "integer", "uint8") && zzPre("uint16", "integer", "uint16") && zzPre("uint32", "integer", "uint32") && zzPre("uint64", "integer", "uint64"))
	vc.Ensures("floats", zzPre("float32", "number", "float32") && zzPre("float64", "number", "float64"))
	vc.Ensures("others", zzPre("string", "string", "") && zzPre("bool", "boolean", "") && zzPre("byte", "string", "byte") && zzPre("rune", "string", "rune"))
	vc.Ensures("composites", zzPre("struct", "object", "") && zzPre("map", "object", "") && zzPre("slice", "array", "") && zzPre("any", "", "") && zzPre("nil", "", ""))
	vc.Ensures("passthrough", zzPre("time.Time", "string", "date-time") && zzPre("github.com/google/uuid.UUID", "string", "uuid") && zzPre("file", "string", "binary"))
}

func zzAcc(t string) bool {
	return vc.Exists(0, len(AcceptedTypes), func(i int) bool { return AcceptedTypes[i] == t })
}

// Every predefined basic type is an accepted type (so that it is looked up under its bare name), the passthrough types are not.
//
//vc:lemma
//vc:prop C13
func zzAcceptedTable() {
	vc.Ensures("integers", zzAcc("int") && zzAcc("int8") && zzAcc("int16") && zzAcc("int32") && zzAcc("int64") && zzAcc("uint") && zzAcc("uint8") && zzAcc("uint16") && zzAcc("uint32") && zzAcc("uint64"))
	vc.Ensures("others", zzAcc("float32") && zzAcc("float64") && zzAcc("string") && zzAcc("bool") && zzAcc("byte") && zzAcc("rune"))
	vc.Ensures("composites", zzAcc("struct") && zzAcc("map") && zzAcc("slice") && zzAcc("any") && zzAcc("nil") && zzAcc("file"))
	vc.Ensures("passthrough", !zzAcc("Time") && !zzAcc("UUID"))
}

// For the contracts of other packages.

func ZZTypesOK(s *Service) bool { return zzTypeCacheOK(s) && zzSeparateMaps(s) }

// ZZMapping is the mapping of a type.
func ZZMapping(s *Service, name, pkg string) (TypeFormat, bool) {
	k := name
	if !ZZAccepted(name) {
		k = pkg + "." + name
	}
	return zzMapped(s.CustomTypeMapping, PredefinedTypeMap, k)
}

func ZZAccepted(t string) bool {
	a := AcceptedTypes
	return vc.Exists(0, len(a), func(i int) bool { return a[i] == t })
}

// ZZKept: the service is as it was, apart from the merged table.
func ZZKept(s *Service, o Service) bool {
	o.fullTypeMapping = s.fullTypeMapping
	return vc.Same(*s, o)
}
