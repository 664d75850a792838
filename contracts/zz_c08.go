package astra

import (
	vc "github.com/ls6-events/astra/zzvc"
)

// zzShallow is the field with its own references to the temporary main package replaced and its own type substituted.
func zzShallow(f Field, mainPkg string) Field {
	q := f.Name
	if f.Package != "" {
		q = f.Package + "." + f.Name
	}
	if q == "time.Duration" {
		f.Type = "int"
	}
	if q == "error" {
		f.Type = "string"
	}
	if q == "time.Duration" || q == "error" {
		f.StructFields, f.SliceType, f.MapValueType = nil, "", ""
	}
	if f.Package == mainPkg {
		f.Package = "main"
	}
	if f.MapKeyPackage == mainPkg {
		f.MapKeyPackage = "main"
	}
	return f
}

// zzSh is zzShallow by definition; what most of the argument needs of it is that cleaning twice is cleaning once.
func zzSh(f Field, mainPkg string) Field { return vc.GhostVal[Field]("shallow", f, mainPkg) }

func zzDefSh() {
	vc.Assume("definition of zzSh", vc.ForallVal(func(f Field) bool {
		return vc.ForallStr(func(m string) bool { return vc.Same(zzSh(f, m), zzShallow(f, m)) })
	}))
}

func zzIdem() {
	vc.Assume("cleaning twice is cleaning once (lemma zzCleanTwice)", vc.ForallVal(func(f Field) bool {
		return vc.ForallStr(func(m string) bool { return vc.Same(zzSh(zzSh(f, m), m), zzSh(f, m)) })
	}))
}

//vc:lemma
//vc:prop C08
func zzCleanTwice(f Field, m string) {
	zzDefSh()
	vc.Ensures("cleaning twice is cleaning once", vc.Same(zzSh(zzSh(f, m), m), zzSh(f, m)))
	vc.Ensures("a cleaned field does not refer to the temporary main package", m == "main" || zzSh(f, m).Package != m && zzSh(f, m).MapKeyPackage != m)
}

// Cleaned maps of struct fields are collected in a ghost set.
var zzDone int

func zzIn(set int, m map[string]Field) bool { return vc.Ghost("in", set, m) }

func zzAddTo(set int, n map[string]Field) int {
	r := vc.Any[int]()
	vc.Assume("sets can be extended", vc.ForallMap(func(m map[string]Field) bool {
		return zzIn(r, m) == (zzIn(set, m) || vc.SameMap(m, n))
	}))
	return r
}

func zzEmpty() int {
	r := vc.Any[int]()
	vc.Assume("there is an empty set", vc.ForallMap(func(m map[string]Field) bool { return !zzIn(r, m) }))
	return r
}

// zzDeep: the field is clean and so is everything below it, given that the set is closed.
func zzDeep(set int, f Field, mainPkg string) bool {
	return vc.Same(f, zzSh(f, mainPkg)) && (f.StructFields == nil || zzIn(set, f.StructFields))
}

// zzClosed: every field of every map in the set is clean, and its own struct fields are in the set again.
func zzClosed(set int, mainPkg string) bool {
	return vc.ForallMap(func(m map[string]Field) bool {
		return vc.ForallStr(func(k string) bool { return !zzIn(set, m) || !vc.Has(m, k) || zzDeep(set, m[k], mainPkg) })
	})
}

func zzGrows(old, set int) bool {
	return vc.ForallMap(func(m map[string]Field) bool { return !zzIn(old, m) || zzIn(set, m) })
}

// zzStep: since the remembered state, maps of struct fields have kept their keys, and each field was left alone or cleaned.
func zzStep(pre vc.Mem, mainPkg string) bool {
	return vc.ForallMap(func(m map[string]Field) bool {
		return vc.ForallStr(func(k string) bool {
			o, has := vc.Old(pre, func() Field { return m[k] }), vc.Old(pre, func() bool { return vc.Has(m, k) })
			v, ok := m[k]
			return !vc.AllocatedIn(pre, m) || ok == has && (vc.Same(v, o) || vc.Same(v, zzSh(o, mainPkg)))
		})
	})
}

//vc:contract (*Service).HandleSubstituteTypes
//vc:prop C08
func zzHandleSubstituteTypes(s *Service, f *Field) {
	vc.Requires(s != nil && f != nil)
	vc.Modifies(f)
	want := zzShallow(*f, "")
	want.Package, want.MapKeyPackage = f.Package, f.MapKeyPackage
	s.HandleSubstituteTypes(f)
	vc.Ensures("documented substitutes, without inner structure", vc.Same(*f, want))
}

//vc:contract (*Service).cleanField
//vc:prop C08
func zzCleanField(s *Service, f Field, mainPkg string) {
	vc.Requires(s != nil)
	vc.Requires(zzClosed(zzDone, mainPkg))
	vc.ModifiesAny(f.StructFields)
	if vc.Verifying() {
		zzDefSh()
	}
	pre := vc.Pre()
	done := zzDone
	vc.Invariant(func(f_f Field, v_vis func(k string) bool) bool {
		return vc.ForallStr(func(k string) bool {
			return !v_vis(k) || !vc.Has(f_f.StructFields, k) || zzDeep(zzDone, f_f.StructFields[k], mainPkg)
		})
	})
	vc.Invariant(func() bool { return zzClosed(zzDone, mainPkg) })
	vc.Invariant(func() bool { return zzGrows(done, zzDone) })
	vc.Invariant(func() bool { return zzStep(pre, mainPkg) })
	r := s.cleanField(f, mainPkg)
	vc.Ensures("the field itself is cleaned", vc.Same(r, zzSh(f, mainPkg)) && vc.Same(r, zzShallow(f, mainPkg)))
	vc.Ensures("its struct fields are cleaned", vc.ForallStr(func(k string) bool {
		return !vc.Has(r.StructFields, k) || zzDeep(zzDone, r.StructFields[k], mainPkg)
	}))
	vc.Ensures("fields are only cleaned, none is lost or added", zzStep(pre, mainPkg))
	zzDone = zzAddTo(zzDone, r.StructFields)
	vc.Ensures("and so is everything below", zzClosed(zzDone, mainPkg))
	vc.Ensures("cleaned fields stay clean", zzGrows(done, zzDone))
	vc.Ensures("the field is cleaned at every depth", zzDeep(zzDone, r, mainPkg))
}

func zzDeepParams(ps []Param, n int, mainPkg string) bool {
	return vc.Forall(0, n, func(j int) bool { return zzDeep(zzDone, ps[j].Field, mainPkg) })
}
func zzDeepBody(ps []BodyParam, n int, mainPkg string) bool {
	return vc.Forall(0, n, func(j int) bool { return zzDeep(zzDone, ps[j].Field, mainPkg) })
}
func zzDeepReturns(ps []ReturnType, n int, mainPkg string) bool {
	return vc.Forall(0, n, func(j int) bool { return zzDeep(zzDone, ps[j].Field, mainPkg) })
}

func zzDeepRoute(r Route, mainPkg string) bool {
	return zzDeepReturns(r.ReturnTypes, len(r.ReturnTypes), mainPkg) && zzDeepParams(r.PathParams, len(r.PathParams), mainPkg) && zzDeepParams(r.QueryParams, len(r.QueryParams), mainPkg) &&
		zzDeepBody(r.Body, len(r.Body), mainPkg) && zzDeepParams(r.RequestHeaders, len(r.RequestHeaders), mainPkg) && zzDeepParams(r.ResponseHeaders, len(r.ResponseHeaders), mainPkg)
}

// Entries of lists are left alone or have their field cleaned, and keep everything else.
func zzStepParams(pre vc.Mem, mainPkg string) bool {
	return vc.ForallSlice(func(s []Param, i int) bool {
		o := vc.Old(pre, func() Param { return s[i] })
		c := o
		c.Field = zzSh(o.Field, mainPkg)
		return !vc.AllocatedIn(pre, s) || vc.Same(s[i], o) || vc.Same(s[i], c)
	})
}
func zzStepBody(pre vc.Mem, mainPkg string) bool {
	return vc.ForallSlice(func(s []BodyParam, i int) bool {
		o := vc.Old(pre, func() BodyParam { return s[i] })
		c := o
		c.Field = zzSh(o.Field, mainPkg)
		return !vc.AllocatedIn(pre, s) || vc.Same(s[i], o) || vc.Same(s[i], c)
	})
}
func zzStepReturns(pre vc.Mem, mainPkg string) bool {
	return vc.ForallSlice(func(s []ReturnType, i int) bool {
		o := vc.Old(pre, func() ReturnType { return s[i] })
		c := o
		c.Field = zzSh(o.Field, mainPkg)
		return !vc.AllocatedIn(pre, s) || vc.Same(s[i], o) || vc.Same(s[i], c)
	})
}

//vc:contract (*Service).Clean
//vc:noreplay
//vc:prop C08 C09
func zzClean(s *Service) {
	vc.Requires(zzOwns(s))
	vc.Modifies(s)
	var f Field
	var p []Param
	var b []BodyParam
	var r []ReturnType
	vc.ModifiesAny(f.StructFields, p, b, r)
	vc.ModifiesElems(s.Components)
	zzDone = zzEmpty()
	o, c0, w0, f0 := *s, zzCreates, zzWrites, zzFails
	pre := vc.Pre()
	rs, cs := o.Routes, o.Components
	zzIdem()
	vc.Invariant(func(f_mainPkg string) bool { return zzClosed(zzDone, f_mainPkg) })
	vc.Invariant(func(e_in vc.Mem) bool { return zzGrows(vc.Old(e_in, func() int { return zzDone }), zzDone) })
	vc.Invariant(func(e_in vc.Mem, f_mainPkg string) bool { return zzStep(e_in, f_mainPkg) })
	vc.Invariant(func(e_in vc.Mem, f_mainPkg string) bool { return zzStepParams(e_in, f_mainPkg) })
	vc.Invariant(func(e_in vc.Mem, f_mainPkg string) bool { return zzStepBody(e_in, f_mainPkg) })
	vc.Invariant(func(e_in vc.Mem, f_mainPkg string) bool { return zzStepReturns(e_in, f_mainPkg) })
	vc.Invariant(func(e_in vc.Mem, f_mainPkg string) bool {
		return vc.Forall(0, len(cs), func(i int) bool {
			oc := vc.Old(e_in, func() Field { return cs[i] })
			return vc.Same(cs[i], oc) || vc.Same(cs[i], zzSh(oc, f_mainPkg))
		})
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool { return i >= len(cs) || zzDeep(zzDone, cs[i], f_mainPkg) })
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool {
			return i >= len(rs) || zzDeepReturns(rs[i].ReturnTypes, len(rs[i].ReturnTypes), f_mainPkg)
		})
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool {
			return i >= len(rs) || zzDeepParams(rs[i].PathParams, len(rs[i].PathParams), f_mainPkg)
		})
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool {
			return i >= len(rs) || zzDeepParams(rs[i].QueryParams, len(rs[i].QueryParams), f_mainPkg)
		})
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool { return i >= len(rs) || zzDeepBody(rs[i].Body, len(rs[i].Body), f_mainPkg) })
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool {
			return i >= len(rs) || zzDeepParams(rs[i].RequestHeaders, len(rs[i].RequestHeaders), f_mainPkg)
		})
	})
	vc.Invariant(func(f_mainPkg string, v_i int) bool {
		return vc.Forall(0, v_i, func(i int) bool {
			return i >= len(rs) || zzDeepParams(rs[i].ResponseHeaders, len(rs[i].ResponseHeaders), f_mainPkg)
		})
	})
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool { return zzDeepReturns(rs[f_i].ReturnTypes, v_j, f_mainPkg) })
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool { return zzDeepParams(rs[f_i].PathParams, v_j, f_mainPkg) })
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool { return zzDeepParams(rs[f_i].QueryParams, v_j, f_mainPkg) })
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool { return zzDeepBody(rs[f_i].Body, v_j, f_mainPkg) })
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool { return zzDeepParams(rs[f_i].RequestHeaders, v_j, f_mainPkg) })
	vc.Invariant(func(f_mainPkg string, f_i, v_j int) bool {
		return zzDeepParams(rs[f_i].ResponseHeaders, v_j, f_mainPkg)
	})

	err := s.Clean()
	mainPkg := s.tempMainPackageName
	vc.Ensures("components are cleaned", err != nil || vc.Forall(0, len(cs), func(i int) bool { return zzDeep(zzDone, cs[i], mainPkg) }))
	vc.Ensures("responses are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepReturns(rs[i].ReturnTypes, len(rs[i].ReturnTypes), mainPkg) }))
	vc.Ensures("path parameters are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepParams(rs[i].PathParams, len(rs[i].PathParams), mainPkg) }))
	vc.Ensures("query parameters are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepParams(rs[i].QueryParams, len(rs[i].QueryParams), mainPkg) }))
	vc.Ensures("bodies are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepBody(rs[i].Body, len(rs[i].Body), mainPkg) }))
	vc.Ensures("request headers are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepParams(rs[i].RequestHeaders, len(rs[i].RequestHeaders), mainPkg) }))
	vc.Ensures("response headers are cleaned", err != nil || vc.Forall(0, len(rs), func(i int) bool { return zzDeepParams(rs[i].ResponseHeaders, len(rs[i].ResponseHeaders), mainPkg) }))
	vc.Ensures("and so is everything below", err != nil || zzClosed(zzDone, mainPkg))
	vc.Ensures("nothing else happens to fields", err != nil || zzStep(pre, mainPkg))
	vc.Ensures("nothing else happens to components", err != nil || vc.Forall(0, len(cs), func(i int) bool {
		oc := vc.Old(pre, func() Field { return cs[i] })
		return vc.Same(cs[i], zzSh(oc, mainPkg))
	}))
	vc.Ensures("nothing else happens to parameters and headers", err != nil || zzStepParams(pre, mainPkg))
	vc.Ensures("nothing else happens to bodies", err != nil || zzStepBody(pre, mainPkg))
	vc.Ensures("nothing else happens to responses", err != nil || zzStepReturns(pre, mainPkg))
	want := o
	want.tempMainPackageName = s.tempMainPackageName
	vc.Ensures("nothing else happens to the service", vc.Same(*s, want))
	zzDefSh()
	vc.Ensures("no reference is left", err != nil || mainPkg == "main" || vc.Forall(0, len(cs), func(i int) bool { return cs[i].Package != mainPkg && cs[i].MapKeyPackage != mainPkg }))
	vc.Ensures("cache", zzCached(s, err, c0, w0))
	vc.Ensures("failures are reported", err != nil || zzFails == f0)
	zzStage(zzStageClean, err)
}
