package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Mapping of Go types to sorts.

const modPath = "github.com/ls6-events/astra"
const vcPath = modPath + "/zzvc"

var sliceDT = &DT{name: "Slice", fields: []string{"ref", "len", "cap"}, sorts: []*Sort{Int, Int, Int}}

func init() { dts["Slice"] = sliceDT }

func MkSlice(ref, ln, cp *Term) *Term { return MkDT(sliceDT, ref, ln, cp) }
func SRef(s *Term) *Term              { return Sel(sliceDT, 0, s) }
func SLen(s *Term) *Term              { return Sel(sliceDT, 1, s) }
func SCap(s *Term) *Term              { return Sel(sliceDT, 2, s) }

var SliceS = DTSort(sliceDT)
var NilSlice = MkSlice(IntLit(0), IntLit(0), IntLit(0))

func tkey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string {
		s := p.Path()
		if s == modPath {
			return "astra"
		}
		return strings.TrimPrefix(s, modPath+"/")
	})
}

func isRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

type structInfo struct {
	dt   *DT
	idx  map[int]int // Go field index -> dt field index
	typ  *types.Struct
	rest bool
}

var structTab = map[string]*structInfo{}

func structOf(t types.Type) *structInfo {
	t = types.Unalias(t)
	st := t.Underlying().(*types.Struct)
	k := tkey(t)
	if si, ok := structTab[k]; ok {
		return si
	}
	external := false
	if n, ok := t.(*types.Named); ok {
		external = !isRepo(n.Obj().Pkg())
	}
	name := "T:" + k
	if len(name) > 120 {
		name = fmt.Sprintf("T:anon%d", len(structTab))
	}
	d := &DT{name: name}
	si := &structInfo{dt: d, idx: map[int]int{}, typ: st}
	structTab[k] = si
	dts[d.name] = d
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if external && !f.Exported() {
			si.rest = true
			continue
		}
		si.idx[i] = len(d.fields)
		nm := f.Name()
		if nm == "_" {
			nm = fmt.Sprintf("_%d", i)
		}
		d.fields = append(d.fields, nm)
		d.sorts = append(d.sorts, sortOf(f.Type()))
	}
	if si.rest {
		d.fields = append(d.fields, "rest#")
		d.sorts = append(d.sorts, USort("Rest:"+k))
	}
	if len(d.fields) == 0 {
		d.fields = append(d.fields, "unit#")
		d.sorts = append(d.sorts, Bool)
	}
	return si
}

func sortOf(t types.Type) *Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return Bool
		case u.Info()&types.IsInteger != 0:
			return Int
		case u.Info()&types.IsFloat != 0:
			return Real
		case u.Info()&types.IsString != 0:
			return Str
		}
		return Int
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature:
		return Int
	case *types.Slice:
		return SliceS
	case *types.Interface:
		return Ifc
	case *types.Struct:
		return DTSort(structOf(t).dt)
	case *types.Array:
		return ArrSort(Int, sortOf(u.Elem()))
	}
	panic(unsupported("sort of type %s", t))
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return False
		case u.Info()&types.IsInteger != 0:
			return IntLit(0)
		case u.Info()&types.IsFloat != 0:
			return mkReal("0.0")
		case u.Info()&types.IsString != 0:
			return StrLit("")
		}
		return IntLit(0)
	case *types.Slice:
		return NilSlice
	case *types.Interface:
		return IfNil
	case *types.Struct:
		si := structOf(t)
		args := make([]*Term, len(si.dt.fields))
		for i := 0; i < u.NumFields(); i++ {
			if j, ok := si.idx[i]; ok {
				args[j] = zeroOf(u.Field(i).Type())
			}
		}
		for j, a := range args {
			if a == nil {
				if si.dt.sorts[j] == Bool {
					args[j] = False
				} else {
					args[j] = NamedConst("zero:"+si.dt.sorts[j].name, si.dt.sorts[j])
				}
			}
		}
		return MkDT(si.dt, args...)
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	}
	return IntLit(0)
}

func mkReal(s string) *Term { return intern(Term{op: "real", sort: Real, sval: s}) }

func boxFor(t types.Type) *Box {
	t = types.Unalias(t)
	k := tkey(t)
	if b, ok := boxes[k]; ok {
		return b
	}
	b := &Box{key: k, ctor: k, sort: sortOf(t), typ: t}
	boxes[k] = b
	boxByCtor[b.ctor] = b
	boxOrder = append(boxOrder, b)
	return b
}

// hasRefs: does a value of this type contain references the heap model knows about?
func hasRefs(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Slice, *types.Signature, *types.Chan:
		return true
	case *types.Basic:
		return u.Info()&types.IsUnsigned != 0
	case *types.Struct:
		si := structOf(t)
		for i := range si.idx {
			if hasRefs(u.Field(i).Type()) {
				return true
			}
		}
	}
	return false
}

// wf lists the type invariants of v: slice shape, references below the allocation bound.
func wf(t types.Type, v *Term, bound *Term) []*Term {
	var out []*Term
	below := func(r *Term) {
		if isLit(r) || r == bound {
			return
		}
		out = append(out, Le(IntLit(0), r), Lt(r, bound))
		if len(r.free) == 0 {
			if _, ok := allocFloor[bound]; ok {
				if _, have := belowBound[r]; !have {
					if _, isBase := allocFloor[r]; !isBase {
						belowBound[r] = bound
					}
				}
			}
		}
	}
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan:
		below(v)
	case *types.Signature:
		if !isLit(v) {
			out = append(out, Le(IntLit(0), v))
		}
	case *types.Slice:
		below(SRef(v))
		out = append(out, Le(IntLit(0), SLen(v)), Le(SLen(v), SCap(v)),
			Implies(Eq(SRef(v), IntLit(0)), Eq(SCap(v), IntLit(0))))
	case *types.Basic:
		if u.Info()&types.IsUnsigned != 0 {
			out = append(out, Le(IntLit(0), v))
		}
	case *types.Struct:
		si := structOf(t)
		for i := 0; i < u.NumFields(); i++ {
			if j, ok := si.idx[i]; ok && hasRefs(u.Field(i).Type()) {
				out = append(out, wf(u.Field(i).Type(), Sel(si.dt, j, v), bound)...)
			}
		}
	}
	var res []*Term
	for _, o := range out {
		if o != True {
			res = append(res, o)
		}
	}
	return res
}

type unsupportedErr struct{ msg string }

func unsupported(f string, a ...any) unsupportedErr { return unsupportedErr{fmt.Sprintf(f, a...)} }
