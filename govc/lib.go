package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func itoa(i int) string { return strconv.Itoa(i) }

// packages whose functions are treated as mathematical functions of their arguments
var purePkgs = map[string]bool{
	"strings": true, "strconv": true, "path": true, "path/filepath": true, "go/types": true, "go/ast": true, "go/token": true,
	"go/constant": true, "reflect": true, "regexp": true, "unicode": true, "unicode/utf8": true, "net/url": true, "runtime": true,
	"github.com/iancoleman/strcase": true, "fmt": true, "errors": true, "net/http": true, "go/parser": true, "io/fs": true, "time": true,
}

// effectful members of those packages: these need models
var impure = map[string]bool{
	"fmt.Println": true, "fmt.Printf": true, "fmt.Print": true, "path/filepath.Walk": true, "path/filepath.WalkDir": true, "path/filepath.Glob": true,
	"go/ast.Inspect": true, "go/ast.Walk": true,
}

var nopPkgs = map[string]bool{"github.com/rs/zerolog": true, "github.com/rs/zerolog/log": true, "sync": true, "github.com/rs/zerolog/pkgerrors": true}

func fnPkgPath(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
	}
	return ""
}

func (x *Ex) external(st *State, fr *Frame, f *ssa.Function, key string, args []Val, ats []types.Type, pos token.Pos) Val {
	pp := fnPkgPath(f)
	res := f.Signature.Results()
	if nopPkgs[pp] {
		x.trusted["no effect: "+pp] = true
		return x.zeroResults(st, key, res)
	}
	if purePkgs[pp] && !impure[key] {
		x.trusted["pure function: "+key] = true
		return x.pureCall(st, key, args, ats, res)
	}
	panic(unsupported("external function %s has no model (called in %s)", key, fr.fn))
}

func (x *Ex) externalMethod(st *State, fr *Frame, key string, m *types.Func, recv *Term, it types.Type, args []Val, ats []types.Type, pos token.Pos) Val {
	pp := ""
	if m.Pkg() != nil {
		pp = m.Pkg().Path()
	}
	if pp == "" || purePkgs[pp] {
		x.trusted["pure method: "+key] = true
		return x.pureCall(st, key, append([]Val{recv}, args...), append([]types.Type{it}, ats...), m.Type().(*types.Signature).Results())
	}
	if nopPkgs[pp] {
		return x.zeroResults(st, key, m.Type().(*types.Signature).Results())
	}
	panic(unsupported("interface method %s has no model (called in %s)", key, fr.fn))
}

func (x *Ex) zeroResults(st *State, key string, res *types.Tuple) Val {
	one := func(t types.Type) Val {
		switch t.Underlying().(type) {
		case *types.Struct:
			return UF("res:"+key, sortOf(t))
		}
		return zeroOf(t)
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return one(res.At(0).Type())
	}
	var tp Tuple
	for i := 0; i < res.Len(); i++ {
		tp = append(tp, one(res.At(i).Type()))
	}
	return tp
}

// flatArgs encodes the arguments of a pure function; slices and maps by content.
func (x *Ex) flatArgs(st *State, args []Val, ats []types.Type) []*Term {
	var out []*Term
	for i, a := range args {
		if c, ok := a.(*Closure); ok && c.fn != nil && !effectFree(c.fn, map[*ssa.Function]bool{}) {
			panic(unsupported("a function with effects is passed to a library function"))
		}
		t := ats[i]
		v := x.toTerm(st, a, t)
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Slice:
			et := u.Elem()
			if n, ok := x.litLen(v); ok {
				c := x.arr(st, et, v)
				out = append(out, IntLit(int64(n)))
				for j := 0; j < n; j++ {
					out = append(out, Select(c, IntLit(int64(j))))
				}
			} else {
				out = append(out, x.arr(st, et, v), SLen(v))
			}
		case *types.Map:
			out = append(out, Select(x.heap(st, domHeap(u)), v), Select(x.heap(st, valHeap(u)), v))
		default:
			out = append(out, v)
		}
	}
	return out
}

// effectFree: the function writes nothing that outlives it.
func effectFree(f *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return true
	}
	seen[f] = true
	if f.Blocks == nil {
		p := fnPkgPath(f)
		return purePkgs[p] && !impure[fnKey(f)] || nopPkgs[p]
	}
	if !isRepoFn(f) && !isWrapper(f) {
		p := fnPkgPath(f)
		return purePkgs[p] && !impure[fnKey(f)] || nopPkgs[p]
	}
	local := func(v ssa.Value) bool {
		for {
			switch u := v.(type) {
			case *ssa.Alloc:
				return true
			case *ssa.FieldAddr:
				v = u.X
			case *ssa.IndexAddr:
				v = u.X
			case *ssa.Slice:
				v = u.X
			default:
				return false
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if !local(i.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if c := i.Call.StaticCallee(); c != nil {
					if !effectFree(c, seen) {
						return false
					}
				} else if bi, ok := i.Call.Value.(*ssa.Builtin); ok {
					if bi.Name() != "len" && bi.Name() != "cap" && bi.Name() != "append" {
						return false
					}
				}
			}
		}
	}
	return true
}

func ufSig(name string, ts []*Term) string {
	// distinguish arities/sorts so that SMT declarations stay consistent
	var b strings.Builder
	b.WriteString(name)
	for _, t := range ts {
		b.WriteString("/")
		b.WriteString(t.sort.name)
	}
	return b.String()
}

func (x *Ex) pureCall(st *State, key string, args []Val, ats []types.Type, res *types.Tuple) Val {
	ts := x.flatArgs(st, args, ats)
	if res.Len() == 0 {
		return nil
	}
	var tp Tuple
	for i := 0; i < res.Len(); i++ {
		n := key
		if res.Len() > 1 {
			n += "#" + itoa(i)
		}
		tp = append(tp, x.pureResult(st, n, ts, res.At(i).Type()))
	}
	if len(tp) == 1 {
		return tp[0]
	}
	return tp
}

func (x *Ex) pureResult(st *State, n string, ts []*Term, t types.Type) Val {
	short := ufShort(n)
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Slice:
		et := u.Elem()
		r := x.newRef(st)
		h := elemHeap(et)
		a := UF(ufSig(short+".arr", ts), ArrSort(Int, sortOf(et)), ts...)
		ln := UF(ufSig(short+".len", ts), Int, ts...)
		x.assumeQ(Le(IntLit(0), ln), ln)
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, a))
		return MkSlice(Ite(Eq(ln, IntLit(0)), IntLit(0), r), ln, ln)
	case *types.Map:
		r := x.newRef(st)
		d, v, l := domHeap(u), valHeap(u), lenHeap(u)
		x.setHeapRef(st, d, r, Store(x.heap(st, d), r, UF(ufSig(short+".dom", ts), heapTab[d].sort.elem, ts...)))
		x.setHeapRef(st, v, r, Store(x.heap(st, v), r, UF(ufSig(short+".val", ts), heapTab[v].sort.elem, ts...)))
		x.setHeapRef(st, l, r, Store(x.heap(st, l), r, UF(ufSig(short+".maplen", ts), Int, ts...)))
		return r
	case *types.Struct:
		if len(structOf(t).dt.fields) == 1 && structOf(t).dt.sorts[0] == Bool {
			return zeroOf(t)
		}
	}
	v := UF(ufSig(short, ts), sortOf(t), ts...)
	if hasRefs(t) {
		key := "pure|" + itoa(v.id)
		if !x.noted[key] {
			x.noted[key] = true
			for _, f := range wf(t, v, x.alloc0) {
				x.assumeWf(f, v)
			}
		}
	}
	return v
}

func ufShort(n string) string { return strings.ReplaceAll(n, modPath, "astra") }

// ---- intrinsics with a precise meaning

func sTerm(v Val) *Term { return v.(*Term) }

func (x *Ex) newError(st *State, kind string) *Term {
	b, ok := boxes["!"+kind]
	if !ok {
		b = &Box{key: "!" + kind, ctor: "!" + kind, sort: Int}
		boxes["!"+kind] = b
		boxByCtor[b.ctor] = b
		boxOrder = append(boxOrder, b)
	}
	if len(x.bvs) > 0 {
		return BoxOf(b, x.fresh("err", Int))
	}
	return BoxOf(b, x.newRef(st))
}

func (x *Ex) intrinsic(st *State, fr *Frame, f *ssa.Function, key string, args []Val, ats []types.Type, pos token.Pos) (Val, bool) {
	t := func(i int) *Term { return x.toTerm(st, args[i], ats[i]) }
	switch key {
	case "errors.New":
		return x.newError(st, "errors.New"), true
	case "fmt.Errorf":
		return x.newError(st, "fmt.Errorf"), true
	case "fmt.Sprintf":
		if r := x.sprintf(st, t(0), t(1), ats[1]); r != nil {
			return r, true
		}
		return nil, false
	case "strings.HasPrefix":
		return x.strPred("str.prefixof", t(1), t(0)), true
	case "strings.HasSuffix":
		return x.strPred("str.suffixof", t(1), t(0)), true
	case "strings.Contains":
		return x.strPred("str.contains", t(0), t(1)), true
	case "strings.TrimSpace", "strings.ToLower", "strings.ToUpper":
		s := t(0)
		g := map[string]func(string) string{"strings.TrimSpace": strings.TrimSpace, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper}[key]
		if s.op == "str" {
			return StrLit(g(s.sval)), true
		}
		x.trusted["pure function: "+key] = true
		r := UF(ufSig(key, []*Term{s}), Str, s)
		k := "idem|" + itoa(r.id)
		if !x.noted[k] {
			x.noted[k] = true
			x.assumeQ(Implies(Eq(s, StrLit("")), Eq(r, StrLit(""))), r)
			x.assumeQ(Eq(UF(ufSig(key, []*Term{r}), Str, r), r), r)
		}
		return r, true
	case "strings.ReplaceAll":
		return UF("str.replace_all", Str, t(0), t(1), t(2)), true
	case "strings.Replace":
		if n := t(3); n.op == "int" && n.ival == -1 {
			return UF("str.replace_all", Str, t(0), t(1), t(2)), true
		}
		if n := t(3); n.op == "int" && n.ival == 1 {
			return UF("str.replace", Str, t(0), t(1), t(2)), true
		}
		return nil, false
	case "strings.TrimPrefix":
		s, p := t(0), t(1)
		return Ite(x.strPred("str.prefixof", p, s), StrSub(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s), true
	case "strings.TrimSuffix":
		s, p := t(0), t(1)
		return Ite(x.strPred("str.suffixof", p, s), StrSub(s, IntLit(0), Sub(StrLen(s), StrLen(p))), s), true
	case "strings.Index":
		return UF("str.indexof", Int, t(0), t(1), IntLit(0)), true
	case "strings.LastIndex":
		return x.lastIndex(t(0), t(1)), true
	case "strings.Split":
		s, p := t(0), t(1)
		et := types.Typ[types.String]
		ts := []*Term{s, p}
		v := x.pureResult(st, "strings.Split", ts, types.NewSlice(et)).(*Term)
		a := UF(ufSig("strings.Split.arr", ts), ArrSort(Int, Str), ts...)
		ln := UF(ufSig("strings.Split.len", ts), Int, ts...)
		k := "split|" + itoa(a.id)
		if !x.noted[k] {
			x.noted[k] = true
			x.assumeQ(Implies(Not(Eq(p, StrLit(""))), Le(IntLit(1), ln)), ln)
			if len(s.free) == 0 && len(p.free) == 0 {
				iv := BVar("i", Int)
				x.assumeRaw(Implies(Not(Eq(p, StrLit(""))), Forall([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, ln)), And(UF("str.contains", Bool, s, Select(a, iv)), Not(UF("str.contains", Bool, Select(a, iv), p)))), []*Term{Select(a, iv)})))
				x.assumeRaw(Implies(Not(Eq(p, StrLit(""))), Eq(Eq(ln, IntLit(1)), Not(UF("str.contains", Bool, s, p)))))
				x.assumeRaw(Implies(Not(Eq(p, StrLit(""))), Eq(x.joinTerm(a, ln, p), s)))
				if p.op == "str" && len(p.sval) == 1 {
					// the last element is what follows the last separator
					li := x.lastIndex(s, p)
					x.assumeRaw(Eq(Select(a, Sub(ln, IntLit(1))), StrSub(s, Add(li, IntLit(1)), Sub(StrLen(s), Add(li, IntLit(1))))))
				}
			}
			if p.op == "str" && len(p.sval) == 1 {
				// the first elements are what the separator cuts off
				b, rest, found := cut(s, p)
				b2, _, _ := cut(rest, p)
				x.assumeQ(Eq(Select(a, IntLit(0)), b), ln)
				x.assumeQ(Eq(found, Lt(IntLit(1), ln)), ln)
				x.assumeQ(Implies(found, Eq(Select(a, IntLit(1)), b2)), ln)
			}
		}
		if p.op == "str" && p.sval != "" {
			r := SRef(v)
			if r.op == "ite" {
				r = r.args[2]
			}
			return MkSlice(r, ln, ln), true
		}
		return v, true
	case "strings.SplitN":
		// the first parts are those of Split
		n := t(2)
		if n.op != "int" || n.ival < 1 {
			return nil, false
		}
		sp := fr.fn.Prog.ImportedPackage("strings").Func("Split")
		all := x.toTerm(st, x.callValue(st, fr, &Closure{fn: sp}, sp.Signature, args[:2], ats[:2], pos), types.NewSlice(types.Typ[types.String]))
		sa := x.arr(st, types.Typ[types.String], all)
		if n.ival == 1 {
			return nil, false
		}
		ts := []*Term{t(0), t(1), n}
		v := x.pureResult(st, key, ts, types.NewSlice(types.Typ[types.String])).(*Term)
		va := x.arr(st, types.Typ[types.String], v)
		for i := int64(0); i < n.ival-1 && i < 8; i++ {
			x.assumeRaw(Implies(Lt(IntLit(i), SLen(all)), Eq(Select(va, IntLit(i)), Select(sa, IntLit(i)))))
		}
		x.assumeRaw(Eq(SLen(v), Ite(Lt(SLen(all), n), SLen(all), n)))
		if n.ival == 2 {
			_, rest, found := cut(t(0), t(1))
			x.assumeRaw(Implies(found, Eq(Select(va, IntLit(1)), rest)))
		}
		return v, true
	case "strings.Cut":
		b, a, f := cut(t(0), t(1))
		return Tuple{b, a, f}, true
	case "strings.CutPrefix":
		s, p := t(0), t(1)
		f := x.strPred("str.prefixof", p, s)
		return Tuple{Ite(f, StrSub(s, StrLen(p), Sub(StrLen(s), StrLen(p))), s), f}, true
	case "strings.CutSuffix":
		s, p := t(0), t(1)
		f := x.strPred("str.suffixof", p, s)
		return Tuple{Ite(f, StrSub(s, IntLit(0), Sub(StrLen(s), StrLen(p))), s), f}, true
	case "strings.Join":
		s, p := t(0), t(1)
		var join func(s *Term) *Term
		join = func(s *Term) *Term {
			if s.op == "ite" {
				return Ite(s.args[0], join(s.args[1]), join(s.args[2]))
			}
			return x.joinTerm(x.arr(st, types.Typ[types.String], s), SLen(s), p)
		}
		return join(s), true
	case "strconv.Itoa":
		return UF("itoa", Str, t(0)), true
	case "path.Join", "path/filepath.Join":
		// a function of the list of non-empty elements; literal number of elements
		s := t(0)
		if n, ok := x.litLen(s); ok {
			a := x.arr(st, types.Typ[types.String], s)
			// Join(a, b, c) = Join(Join(a, b), c), and Join(a, "b/c") = Join(Join(a, "b"), "c")
			x.trusted["pure function: "+key] = true
			var r *Term
			for i := 0; i < n; i++ {
				e := Select(a, IntLit(int64(i)))
				if r == nil {
					if e != StrLit("") {
						r = e
						if strings.HasPrefix(e.op, "path.Join") {
							continue
						}
						if i == n-1 {
							r = UF("path.Clean", Str, e)
						}
					}
					continue
				}
				var parts []*Term
				if e.op == "str" && !strings.Contains("/"+e.sval+"/", "/../") {
					for _, q := range strings.Split(e.sval, "/") {
						if q != "" && q != "." {
							parts = append(parts, StrLit(q))
						}
					}
					if len(parts) == 0 {
						r = UF("path.Clean", Str, r)
					}
				} else {
					parts = []*Term{e}
				}
				for _, q := range parts {
					r = UF("path.Join", Str, r, q)
				}
			}
			if r == nil {
				r = StrLit("")
			}
			return r, true
		}
		return nil, false
	case "slices.Contains":
		et := elemOf(ats[0])
		s, v := t(0), t(1)
		return x.existsIn(st, et, s, func(e *Term) *Term { return Eq(e, v) }), true
	case "slices.ContainsFunc", "slices.IndexFunc", "slices.Index":
		return nil, false
	case "slices.Reverse":
		et := elemOf(ats[0])
		s := t(0)
		h := elemHeap(et)
		old := x.arr(st, et, s)
		n := SLen(s)
		na := x.fresh("reversed", old.sort)
		iv := BVar("i", Int)
		x.assumeQ(Forall([]*Term{iv}, Eq(Select(na, iv), Ite(And(Le(IntLit(0), iv), Lt(iv, n)), Select(old, Sub(Sub(n, IntLit(1)), iv)), Select(old, iv))), []*Term{Select(na, iv)}), na)
		x.setHeapRef(st, h, SRef(s), Store(x.heap(st, h), SRef(s), na))
		return nil, true
	case "maps.Copy":
		mt := types.Unalias(ats[0]).Underlying().(*types.Map)
		ms := types.Unalias(ats[1]).Underlying().(*types.Map)
		d, s := t(0), t(1)
		dd, sd := Select(x.heap(st, domHeap(mt)), d), Select(x.heap(st, domHeap(ms)), s)
		x.nilMapFacts(x.heap(st, domHeap(mt)))
		dv, sv := Select(x.heap(st, valHeap(mt)), d), Select(x.heap(st, valHeap(ms)), s)
		nd := x.fresh("mcopyD", dd.sort)
		nv := x.fresh("mcopyV", dv.sort)
		nl := x.fresh("mcopyL", Int)
		kv := BVar("k", sortOf(mt.Key()))
		x.assumeQ(Forall([]*Term{kv}, Eq(Select(nd, kv), Or(Select(dd, kv), Select(sd, kv))), []*Term{Select(nd, kv)}), nd)
		x.assumeQ(Forall([]*Term{kv}, Eq(Select(nv, kv), Ite(Select(sd, kv), Select(sv, kv), Select(dv, kv))), []*Term{Select(nv, kv)}), nv)
		// writing to a nil map panics when there is something to copy
		nz := Not(Eq(d, IntLit(0)))
		if nz != True {
			x.checkCond(st, fr, "nil-map-write", Or(nz, Eq(x.mapLen(st, ms, s), IntLit(0))), pos)
		}
		for _, u := range []struct {
			h string
			v *Term
		}{{domHeap(mt), nd}, {valHeap(mt), nv}, {lenHeap(mt), nl}} {
			h := x.heap(st, u.h)
			x.setHeapRef(st, u.h, d, Ite(nz, Store(h, d, u.v), h))
		}
		return nil, true
	case "(reflect.StructTag).Lookup":
		return Tuple{UF("tagGet", Str, t(0), t(1)), UF("tagHas", Bool, t(0), t(1))}, true
	case "(reflect.StructTag).Get":
		return Ite(UF("tagHas", Bool, t(0), t(1)), UF("tagGet", Str, t(0), t(1)), StrLit("")), true
	}
	return nil, false
}

func (x *Ex) strPred(op string, a, b *Term) *Term {
	if a.op == "str" && b.op == "str" {
		switch op {
		case "str.prefixof":
			return BoolLit(strings.HasPrefix(b.sval, a.sval))
		case "str.suffixof":
			return BoolLit(strings.HasSuffix(b.sval, a.sval))
		case "str.contains":
			return BoolLit(strings.Contains(a.sval, b.sval))
		}
	}
	s, l := b, a
	if op == "str.contains" {
		s, l = a, b
	}
	if s.op == "ite" && l.op == "str" {
		return Ite(s.args[0], x.strPredS(op, s.args[1], l), x.strPredS(op, s.args[2], l))
	}
	if l.op == "str" {
		if l.sval == "" {
			return True
		}
		ps := catParts(s)
		e := ps[len(ps)-1]
		if e.op == "uf:path.Join" && e.args[1].op == "str" {
			e = e.args[1] // a single clean element
			if op == "str.suffixof" && (len(e.sval) >= len(l.sval) || !strings.HasSuffix(l.sval, e.sval)) && len(s.free) == 0 {
				x.assumeRaw(Eq(UF(op, Bool, a, b), BoolLit(strings.HasSuffix(e.sval, l.sval))))
			}
		}
		switch {
		case op == "str.prefixof" && ps[0].op == "str" && (len(ps[0].sval) >= len(l.sval) || !strings.HasPrefix(l.sval, ps[0].sval)):
			return BoolLit(strings.HasPrefix(ps[0].sval, l.sval))
		case op == "str.suffixof" && e.op == "str" && (len(e.sval) >= len(l.sval) || !strings.HasSuffix(l.sval, e.sval)):
			return BoolLit(strings.HasSuffix(e.sval, l.sval))
		case op == "str.contains":
			for _, q := range ps {
				if q.op == "str" && strings.Contains(q.sval, l.sval) {
					return True
				}
			}
		}
	}
	r := UF(op, Bool, a, b)
	if l.op == "str" && op != "str.contains" && len(r.free) == 0 {
		// two literals at the same end agree, or are not both there
		k := op + "|" + itoa(s.id)
		if x.ends == nil {
			x.ends = map[string][]*Term{}
		}
		has := func(s, l string) bool {
			if op == "str.prefixof" {
				return strings.HasPrefix(s, l)
			}
			return strings.HasSuffix(s, l)
		}
		new := true
		for _, o := range x.ends[k] {
			new = new && o != l
		}
		if new {
			for _, o := range x.ends[k] {
				q := UF(op, Bool, o, s)
				switch {
				case has(l.sval, o.sval):
					x.assumeRaw(Implies(r, q))
				case has(o.sval, l.sval):
					x.assumeRaw(Implies(q, r))
				default:
					x.assumeRaw(Not(And(q, r)))
				}
			}
			x.ends[k] = append(x.ends[k], l)
		}
	}
	return r
}

func (x *Ex) strPredS(op string, s, l *Term) *Term {
	if op == "str.contains" {
		return x.strPred(op, s, l)
	}
	return x.strPred(op, l, s)
}

// catParts are the pieces of a concatenation.
func catParts(t *Term) []*Term {
	if t.op == "uf:str.++" {
		return append(append([]*Term{}, catParts(t.args[0])...), catParts(t.args[1])...)
	}
	return []*Term{t}
}

// joinTerm is strings.Join over the first n elements of a, with its unfolding facts.
func (x *Ex) joinTerm(a, n, sep *Term) *Term {
	if n.op == "ite" {
		if l, r := n.args[1], n.args[2]; l.op == "int" && r.op == "int" {
			return Ite(n.args[0], x.joinTerm(a, l, sep), x.joinTerm(a, r, sep))
		}
	}
	if n.op == "int" && n.ival <= 64 {
		if n.ival <= 0 {
			return StrLit("")
		}
		var parts []*Term
		for i := int64(0); i < n.ival; i++ {
			if i > 0 {
				parts = append(parts, sep)
			}
			parts = append(parts, Select(a, IntLit(i)))
		}
		return Concat(parts...)
	}
	// stores at or beyond n do not matter
	for a.op == "store" && Le(n, a.args[1]) == True {
		a = a.args[0]
	}
	j := UF("join", Str, a, n, sep)
	k := "join|" + itoa(j.id)
	if len(j.free) == 0 && !x.noted[k] {
		x.noted[k] = true
		one := IntLit(1)
		x.assumeRaw(Implies(Le(n, IntLit(0)), Eq(j, StrLit(""))))
		x.assumeRaw(Implies(Eq(n, one), Eq(j, Select(a, IntLit(0)))))
		m := Sub(n, one)
		b := a
		for b.op == "store" && Le(m, b.args[1]) == True {
			b = b.args[0]
		}
		left := UF("join", Str, b, m, sep)
		x.assumeRaw(Implies(Lt(one, n), Eq(j, Concat(left, sep, Select(a, m)))))
		// append of stored element: the prefix is itself a join
		if b != a {
			x.joinTerm(b, m, sep)
		}
		if a.op != "uf:shift:"+a.sort.name {
			x.assumeRaw(Implies(Lt(one, n), Eq(j, Concat(Select(a, IntLit(0)), sep, UF("join", Str, x.shift(a, one), m, sep)))))
		}
	}
	return j
}

func (x *Ex) existsIn(st *State, et types.Type, s *Term, p func(e *Term) *Term) *Term {
	a := x.arr(st, et, s)
	if n, ok := x.litLen(s); ok && n <= 128 {
		var ds []*Term
		for i := 0; i < n; i++ {
			ds = append(ds, p(Select(a, IntLit(int64(i)))))
		}
		return Or(ds...)
	}
	iv := BVar("i", Int)
	return Exists([]*Term{iv}, And(Le(IntLit(0), iv), Lt(iv, SLen(s)), p(Select(a, iv))))
}

// sprintf handles constant formats with %s, %v, %d on strings and integers.
func (x *Ex) sprintf(st *State, format, va *Term, vt types.Type) *Term {
	if format.op != "str" {
		return nil
	}
	n, ok := x.litLen(va)
	if !ok {
		return nil
	}
	arr := x.arr(st, elemOf(vt), va)
	var parts []*Term
	f := format.sval
	arg := 0
	for len(f) > 0 {
		i := strings.IndexByte(f, '%')
		if i < 0 {
			parts = append(parts, StrLit(f))
			break
		}
		parts = append(parts, StrLit(f[:i]))
		if i+1 >= len(f) {
			return nil
		}
		verb := f[i+1]
		f = f[i+2:]
		if verb == '%' {
			parts = append(parts, StrLit("%"))
			continue
		}
		if arg >= n {
			return nil
		}
		a := Select(arr, IntLit(int64(arg)))
		arg++
		sb := boxFor(types.Typ[types.String])
		ib := boxFor(types.Typ[types.Int])
		switch {
		case a.op == "box:"+sb.ctor && (verb == 's' || verb == 'v'):
			parts = append(parts, a.args[0])
		case a.op == "box:"+ib.ctor && (verb == 'd' || verb == 'v'):
			if a.args[0].op == "int" {
				parts = append(parts, StrLit(fmt.Sprint(a.args[0].ival)))
			} else {
				parts = append(parts, UF("itoa", Str, a.args[0]))
			}
		default:
			parts = append(parts, UF("fmt:%"+string(verb), Str, a))
		}
	}
	if arg != n {
		return nil
	}
	return Concat(parts...)
}

// ---- opaque function values

func (x *Ex) opaqueCall(st *State, fr *Frame, f *Term, ft types.Type, args []Val, ats []types.Type, pos token.Pos) Val {
	sig := types.Unalias(ft).Underlying().(*types.Signature)
	if m := x.eng.opaqueModel(ft, x.h); m != nil && !x.inModel(m) {
		x.trusted["model of calls to function values of type "+tkey(ft)] = true
		return x.enter(st, fr, m, nil, append([]Val{f}, args...), pos)
	}
	// default: a deterministic function without effects, allowed only for signatures over plain values
	for i := 0; i < sig.Params().Len(); i++ {
		if hasRefs(sig.Params().At(i).Type()) {
			panic(unsupported("call of an unknown function of type %s has no model", ft))
		}
	}
	x.trusted["unknown function values of type "+tkey(sig)+" are deterministic and without effects"] = true
	ts := []*Term{f}
	for i, a := range args {
		ts = append(ts, x.toTerm(st, a, ats[i]))
	}
	if sig.Results().Len() == 0 {
		return nil
	}
	if sig.Results().Len() == 1 {
		return x.pureResult(st, "apply:"+tkey(sig), ts, sig.Results().At(0).Type())
	}
	var tp Tuple
	for i := 0; i < sig.Results().Len(); i++ {
		tp = append(tp, x.pureResult(st, "apply:"+tkey(sig)+"#"+itoa(i), ts, sig.Results().At(i).Type()))
	}
	return tp
}

func (x *Ex) note(s string) { x.trusted[s] = true }

func (x *Ex) lastIndex(s, p *Term) *Term {
	r := UF("lastIndex", Int, s, p)
	k := "lastidx|" + itoa(r.id)
	if !x.noted[k] {
		x.noted[k] = true
		x.assumeQ(And(Le(IntLit(-1), r), Le(Add(r, StrLen(p)), StrLen(s))), r)
		x.assumeQ(Eq(Eq(r, IntLit(-1)), Not(UF("str.contains", Bool, s, p))), r)
		x.assumeQ(Implies(Le(IntLit(0), r), And(Eq(UF("str.substr", Str, s, r, StrLen(p)), p),
			Not(UF("str.contains", Bool, UF("str.substr", Str, s, Add(r, IntLit(1)), Sub(Sub(StrLen(s), r), IntLit(1))), p)))), r)
	}
	return r
}

// cut is the meaning of strings.Cut.
func cut(s, p *Term) (before, after, found *Term) {
	if s.op == "ite" {
		b1, a1, f1 := cut(s.args[1], p)
		b2, a2, f2 := cut(s.args[2], p)
		return Ite(s.args[0], b1, b2), Ite(s.args[0], a1, a2), Ite(s.args[0], f1, f2)
	}
	if s.op == "str" && p.op == "str" {
		b, a, f := strings.Cut(s.sval, p.sval)
		return StrLit(b), StrLit(a), BoolLit(f)
	}
	i := UF("str.indexof", Int, s, p, IntLit(0))
	found = Le(IntLit(0), i)
	from := Add(i, StrLen(p))
	return Ite(found, StrSub(s, IntLit(0), i), s), Ite(found, StrSub(s, from, Sub(StrLen(s), from)), StrLit("")), found
}
