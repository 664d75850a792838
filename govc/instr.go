package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// fresh makes a new symbol; under quantifiers it depends on the bound variables.
func (x *Ex) fresh(hint string, s *Sort) *Term {
	if len(x.bvs) > 0 {
		freshCount++
		return UF(hintName(hint, freshCount), s, x.bvs...)
	}
	return Fresh(hint, s)
}

func hintName(h string, n int) string { return h + "!u" + itoa(n) }

func (x *Ex) freshOf(st *State, hint string, t types.Type) *Term {
	v := x.fresh(hint, sortOf(t))
	for _, f := range wf(t, v, st.alloc.term()) {
		x.assumeWf(f, v)
	}
	return v
}

func (x *Ex) set(st *State, fr *Frame, v ssa.Value, r Val) {
	fr.env[v] = r
	if st.ov != nil {
		delete(st.ov, envKey{fr, v})
	}
}

func elemOf(t types.Type) types.Type {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	panic(unsupported("element of %s", t))
}

func (x *Ex) instr(fr *Frame, st *State, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		t := i.Type().Underlying().(*types.Pointer).Elem()
		c := x.newCell(t, i.Name()+":"+i.Comment)
		st.cells[c] = zeroOf(t)
		x.set(st, fr, i, &Addr{cell: c, typ: t})
	case *ssa.BinOp:
		x.set(st, fr, i, x.binop(st, fr, i.Op, x.val(st, fr, i.X), x.val(st, fr, i.Y), i.X.Type(), i.Y.Type(), i.Pos()))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			a := x.asAddr(st, x.val(st, fr, i.X), i.X.Type())
			x.checkAddr(st, fr, a, i.Pos())
			x.set(st, fr, i, x.load(st, a))
		case token.NOT:
			x.set(st, fr, i, Not(x.term(st, fr, i.X)))
		case token.SUB:
			t := x.term(st, fr, i.X)
			if t.sort == Int {
				x.set(st, fr, i, Sub(IntLit(0), t))
			} else {
				x.set(st, fr, i, mk("-", t.sort, t))
			}
		default:
			panic(unsupported("operator %s", i.Op))
		}
	case *ssa.Store:
		a := x.asAddr(st, x.val(st, fr, i.Addr), i.Addr.Type())
		x.checkAddr(st, fr, a, i.Pos())
		v := x.val(st, fr, i.Val)
		if x.specDepth > 0 && x.base(st, a).cell == nil {
			x.specStore(fr, i.Pos())
		}
		x.store(st, a, v)
	case *ssa.FieldAddr:
		a := x.asAddr(st, x.val(st, fr, i.X), i.X.Type())
		x.checkAddr(st, fr, a, i.Pos())
		st0 := elemOf(i.X.Type()).Underlying().(*types.Struct)
		n := &Addr{cell: a.cell, heap: a.heap, ref: a.ref, idx: a.idx, typ: a.typ, path: append(append([]pathStep{}, a.path...), pathStep{field: i.Field})}
		_ = st0
		x.set(st, fr, i, n)
	case *ssa.Field:
		v := x.term(st, fr, i.X)
		r := getPath(v, i.X.Type(), []pathStep{{field: i.Field}})
		x.set(st, fr, i, r)
	case *ssa.IndexAddr:
		idx := x.term(st, fr, i.Index)
		switch u := types.Unalias(i.X.Type()).Underlying().(type) {
		case *types.Slice:
			s := x.term(st, fr, i.X)
			x.checkCond(st, fr, "index-in-range", And(Le(IntLit(0), idx), Lt(idx, SLen(s))), i.Pos())
			x.set(st, fr, i, &Addr{heap: elemHeap(u.Elem()), ref: SRef(s), idx: idx, typ: u.Elem()})
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			a := x.asAddr(st, x.val(st, fr, i.X), i.X.Type())
			x.checkCond(st, fr, "index-in-range", And(Le(IntLit(0), idx), Lt(idx, IntLit(at.Len()))), i.Pos())
			x.set(st, fr, i, &Addr{cell: a.cell, heap: a.heap, ref: a.ref, idx: a.idx, typ: a.typ, path: append(append([]pathStep{}, a.path...), pathStep{idx: idx, field: -1})})
		default:
			panic(unsupported("index address of %s", i.X.Type()))
		}
	case *ssa.Index:
		idx := x.term(st, fr, i.Index)
		switch u := types.Unalias(i.X.Type()).Underlying().(type) {
		case *types.Array:
			x.checkCond(st, fr, "index-in-range", And(Le(IntLit(0), idx), Lt(idx, IntLit(u.Len()))), i.Pos())
			x.set(st, fr, i, Select(x.term(st, fr, i.X), idx))
		default:
			s := x.term(st, fr, i.X)
			x.checkCond(st, fr, "index-in-range", And(Le(IntLit(0), idx), Lt(idx, StrLen(s))), i.Pos())
			x.set(st, fr, i, UF("str.to_code", Int, UF("str.at", Str, s, idx)))
		}
	case *ssa.Lookup:
		if b, ok := types.Unalias(i.X.Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := x.term(st, fr, i.X)
			idx := x.term(st, fr, i.Index)
			x.checkCond(st, fr, "index-in-range", And(Le(IntLit(0), idx), Lt(idx, StrLen(s))), i.Pos())
			x.set(st, fr, i, UF("str.to_code", Int, UF("str.at", Str, s, idx)))
			return
		}
		mt := types.Unalias(i.X.Type()).Underlying().(*types.Map)
		v, ok := x.mapLookup(st, mt, x.term(st, fr, i.X), x.term(st, fr, i.Index))
		if i.CommaOk {
			x.set(st, fr, i, Tuple{v, ok})
		} else {
			x.set(st, fr, i, v)
		}
	case *ssa.MapUpdate:
		mt := types.Unalias(i.Map.Type()).Underlying().(*types.Map)
		m := x.term(st, fr, i.Map)
		x.checkCond(st, fr, "nil-map-write", Not(Eq(m, IntLit(0))), i.Pos())
		k := x.term(st, fr, i.Key)
		v := x.toTerm(st, x.val(st, fr, i.Value), mt.Elem())
		x.mapStore(st, mt, m, k, v)
	case *ssa.MakeMap:
		mt := types.Unalias(i.Type()).Underlying().(*types.Map)
		x.set(st, fr, i, x.makeMap(st, mt))
	case *ssa.MakeSlice:
		et := elemOf(i.Type())
		ln := x.term(st, fr, i.Len)
		cp := x.term(st, fr, i.Cap)
		x.checkCond(st, fr, "makeslice-len", And(Le(IntLit(0), ln), Le(ln, cp)), i.Pos())
		r := x.newRef(st)
		h := elemHeap(et)
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, ConstArr(ArrSort(Int, sortOf(et)), zeroOf(et))))
		x.set(st, fr, i, MkSlice(r, ln, cp))
	case *ssa.MakeInterface:
		v := x.toTerm(st, x.val(st, fr, i.X), i.X.Type())
		x.set(st, fr, i, BoxOf(boxFor(i.X.Type()), v))
	case *ssa.MakeClosure:
		c := &Closure{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			c.binds = append(c.binds, x.val(st, fr, b))
		}
		x.set(st, fr, i, c)
	case *ssa.ChangeInterface:
		x.set(st, fr, i, x.val(st, fr, i.X))
	case *ssa.ChangeType:
		v := x.val(st, fr, i.X)
		if t, ok := v.(*Term); ok && t.sort != sortOf(i.Type()) {
			v = x.convStruct(t, i.X.Type(), i.Type())
		}
		x.set(st, fr, i, v)
	case *ssa.Convert:
		x.set(st, fr, i, x.convert(st, fr, i))
	case *ssa.Extract:
		tv := x.val(st, fr, i.Tuple)
		x.set(st, fr, i, tv.(Tuple)[i.Index])
	case *ssa.Slice:
		x.set(st, fr, i, x.sliceOp(st, fr, i))
	case *ssa.TypeAssert:
		x.typeAssert(st, fr, i)
	case *ssa.Range:
		switch u := types.Unalias(i.X.Type()).Underlying().(type) {
		case *types.Map:
			m := x.term(st, fr, i.X)
			vc := x.newCell(nil, "visited")
			vc.vsort = ArrSort(sortOf(u.Key()), Bool)
			st.cells[vc] = ConstArr(vc.vsort, False)
			it := &Iter{isMap: true, ref: m, mt: u, visited: vc, dom0: Select(x.heap(st, domHeap(u)), m)}
			x.set(st, fr, i, it)
		default:
			panic(unsupported("range over %s", i.X.Type()))
		}
	case *ssa.Next:
		it := x.val(st, fr, i.Iter).(*Iter)
		dom := Select(x.heap(st, domHeap(it.mt)), it.ref)
		vis := st.cells[it.visited].(*Term)
		k := x.freshOf(st, "key", it.mt.Key())
		ok := x.fresh("more", Bool)
		x.assume(st, Implies(ok, And(Select(dom, k), Not(Select(vis, k)))))
		kv := BVar("k", sortOf(it.mt.Key()))
		x.assume(st, Implies(Not(ok), Forall([]*Term{kv}, Implies(And(Select(it.dom0, kv), Select(dom, kv)), Select(vis, kv)))))
		v, _ := x.mapLookup(st, it.mt, it.ref, k)
		// v under ok is the map value itself
		raw := Select(Select(x.heap(st, valHeap(it.mt)), it.ref), k)
		if r, isT := v.(*Term); isT && r.op == "ite" {
			v = raw
		}
		x.recordCell(it.visited)
		st.cells[it.visited] = Ite(ok, Store(vis, k, True), vis)
		x.set(st, fr, i, Tuple{ok, k, v})
	case *ssa.Call:
		v := x.callCommon(st, fr, &i.Call, i, i.Pos())
		if v == nil && i.Call.Signature().Results().Len() == 1 && st.guard != False {
			panic(unsupported("no result of call %s", i))
		}
		x.set(st, fr, i, v)
	case *ssa.Defer:
		d := deferred{call: i, guard: st.guard}
		c := &i.Call
		for _, a := range c.Args {
			d.args = append(d.args, x.val(st, fr, a))
		}
		if !c.IsInvoke() {
			if _, isF := c.Value.(*ssa.Function); !isF {
				if _, isB := c.Value.(*ssa.Builtin); !isB {
					d.fnv = x.val(st, fr, c.Value)
				}
			}
		} else {
			d.fnv = x.val(st, fr, c.Value)
		}
		fr.defers = append(fr.defers, d)
	case *ssa.RunDefers:
		ds := fr.defers
		for k := len(ds) - 1; k >= 0; k-- {
			d := ds[k]
			if Implies(st.guard, d.guard) == True || d.guard == True {
				x.invoke(st, fr, &d.call.Call, d.args, d.fnv, d.call.Pos())
				continue
			}
			s1 := st.clone()
			s1.guard = And(st.guard, d.guard)
			s2 := st.clone()
			s2.guard = And(st.guard, Not(d.guard))
			if s1.guard == False {
				continue
			}
			x.invoke(s1, fr, &d.call.Call, d.args, d.fnv, d.call.Pos())
			m := s1
			if s2.guard != False {
				m = x.mergeStates([]*State{s1, s2})
			}
			g := st.guard
			*st = *m
			st.guard = g
		}
	case *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported("concurrency instruction %s", ins))
	default:
		panic(unsupported("instruction %T", ins))
	}
}

func (x *Ex) specStore(fr *Frame, pos token.Pos) {}

func (x *Ex) checkAddr(st *State, fr *Frame, a *Addr, pos token.Pos) {
	if a.cell != nil {
		return
	}
	if a.idx != nil {
		return // checked at IndexAddr
	}
	x.checkNil(st, fr, a.ref, pos)
}

func (x *Ex) setHeapRef(st *State, name string, ref *Term, h *Term) {
	x.recordHeapRef(name, ref, -1)
	x.setHeap(st, name, h)
}

// ---- maps

func (x *Ex) makeMap(st *State, mt *types.Map) *Term {
	r := x.newRef(st)
	d, v, l := domHeap(mt), valHeap(mt), lenHeap(mt)
	x.setHeapRef(st, d, r, Store(x.heap(st, d), r, ConstArr(heapTab[d].sort.elem, False)))
	x.setHeapRef(st, v, r, Store(x.heap(st, v), r, ConstArr(heapTab[v].sort.elem, zeroOf(mt.Elem()))))
	x.setHeapRef(st, l, r, Store(x.heap(st, l), r, IntLit(0)))
	return r
}

func (x *Ex) mapLookup(st *State, mt *types.Map, m, k *Term) (Val, *Term) {
	d := x.heap(st, domHeap(mt))
	x.nilMapFacts(d)
	ok := Select(Select(d, m), k)
	if ok == False || m.op == "int" && m.ival == 0 {
		return zeroOf(mt.Elem()), False
	}
	vh := x.heap(st, valHeap(mt))
	v := Select(Select(vh, m), k)
	x.noteLoad(st, v, mt.Elem(), vh, m, k, mt.Elem(), nil)
	return Ite(ok, v, zeroOf(mt.Elem())), ok
}

// nilMapFacts: the nil map is empty in every heap version.
func (x *Ex) nilMapFacts(d *Term) {
	for d.op == "store" {
		d = d.args[0]
	}
	if d.op == "ite" {
		x.nilMapFacts(d.args[1])
		x.nilMapFacts(d.args[2])
		return
	}
	if _, ok := symTab[d]; !ok {
		return
	}
	key := "nilmap|" + itoa(d.id)
	if x.noted[key] {
		return
	}
	x.noted[key] = true
	if knownSelect[d] == nil {
		knownSelect[d] = map[int64]*Term{}
	}
	knownSelect[d][0] = ConstArr(d.sort.elem, False)
	x.assumeRaw(mk("=", Bool, mk("select", d.sort.elem, d, IntLit(0)), ConstArr(d.sort.elem, False)))
}

func (x *Ex) mapStore(st *State, mt *types.Map, m, k, v *Term) {
	d, vv, l := domHeap(mt), valHeap(mt), lenHeap(mt)
	x.nilMapFacts(x.heap(st, d))
	dh, vh, lh := x.heap(st, d), x.heap(st, vv), x.heap(st, l)
	od := Select(dh, m)
	x.setHeapRef(st, l, m, Store(lh, m, Ite(Select(od, k), Select(lh, m), Add(Select(lh, m), IntLit(1)))))
	x.setHeapRef(st, d, m, Store(dh, m, Store(od, k, True)))
	x.setHeapRef(st, vv, m, Store(vh, m, Store(Select(vh, m), k, v)))
}

func (x *Ex) mapDelete(st *State, mt *types.Map, m, k *Term) {
	d, l := domHeap(mt), lenHeap(mt)
	dh, lh := x.heap(st, d), x.heap(st, l)
	od := Select(dh, m)
	x.setHeapRef(st, l, m, Store(lh, m, Ite(Select(od, k), Sub(Select(lh, m), IntLit(1)), Select(lh, m))))
	x.setHeapRef(st, d, m, Store(dh, m, Store(od, k, False)))
}

func (x *Ex) mapLen(st *State, mt *types.Map, m *Term) *Term {
	if m.op == "int" && m.ival == 0 {
		return IntLit(0)
	}
	dh := x.heap(st, domHeap(mt))
	x.nilMapFacts(dh)
	l := Select(x.heap(st, lenHeap(mt)), m)
	if isLit(l) {
		return l
	}
	d := Select(dh, m)
	key := "maplen|" + itoa(l.id) + "|" + itoa(d.id)
	if !x.noted[key] {
		x.noted[key] = true
		x.assumeQ(Le(IntLit(0), l), l)
		kv := BVar("k", sortOf(mt.Key()))
		if len(l.free) == 0 && len(d.free) == 0 {
			x.assumeRaw(Implies(Eq(l, IntLit(0)), Forall([]*Term{kv}, Not(Select(d, kv)))))
			w := Fresh("inmap", sortOf(mt.Key()))
			x.assumeRaw(Implies(Not(Eq(l, IntLit(0))), Select(d, w)))
		}
	}
	return l
}

// ---- slices

func (x *Ex) arr(st *State, et types.Type, s *Term) *Term {
	return Select(x.heap(st, elemHeap(et)), SRef(s))
}

// elems returns the individual elements when the length is literal.
func (x *Ex) litLen(s *Term) (int, bool) {
	l := SLen(s)
	if l.op == "int" {
		return int(l.ival), true
	}
	return 0, false
}

func (x *Ex) appendSlice(st *State, et types.Type, s, t *Term) *Term {
	ls, lt := SLen(s), SLen(t)
	if lt == IntLit(0) {
		return s
	}
	h := elemHeap(et)
	n := Add(ls, lt)
	fits := Le(n, SCap(s))
	src := x.arr(st, et, t)
	old := x.arr(st, et, s)
	var na *Term
	if k, ok := x.litLen(t); ok && k <= 64 {
		na = old
		for j := 0; j < k; j++ {
			na = Store(na, Add(ls, IntLit(int64(j))), Select(src, IntLit(int64(j))))
		}
	} else {
		na = x.fresh("appended", old.sort)
		iv := BVar("i", Int)
		x.assumeQ(Forall([]*Term{iv}, Eq(Select(na, iv), Ite(And(Le(ls, iv), Lt(iv, n)), Select(src, Sub(iv, ls)), Select(old, iv))), []*Term{Select(na, iv)}), na)
	}
	if fits == True {
		x.setHeapRef(st, h, SRef(s), Store(x.heap(st, h), SRef(s), na))
		return MkSlice(SRef(s), n, SCap(s))
	}
	fr := x.newRef(st)
	nc := x.fresh("cap", Int)
	x.assumeQ(Le(n, nc), nc)
	ref := Ite(fits, SRef(s), fr)
	x.recordHeapRef(h, fr, -1)
	if fits != False {
		x.recordHeapRef(h, SRef(s), -1)
	}
	x.setHeap(st, h, Store(x.heap(st, h), ref, na))
	return MkSlice(ref, n, Ite(fits, SCap(s), nc))
}

// copyContents makes a fresh slice with the contents s[lo:hi].
func (x *Ex) copyContents(st *State, et types.Type, s, lo, hi *Term) *Term {
	h := elemHeap(et)
	r := x.newRef(st)
	a := x.arr(st, et, s)
	na := a
	if lo != IntLit(0) {
		na = x.shift(a, lo)
	}
	n := Sub(hi, lo)
	x.setHeapRef(st, h, r, Store(x.heap(st, h), r, na))
	return MkSlice(r, n, n)
}

// shift is the array i -> a[i+lo].
func (x *Ex) shift(a, lo *Term) *Term {
	na := UF("shift:"+a.sort.name, a.sort, a, lo)
	iv := BVar("i", Int)
	key := "shift|" + itoa(na.id)
	if !x.noted[key] {
		x.noted[key] = true
		x.assumeQ(Forall([]*Term{iv}, Eq(Select(na, iv), Select(a, Add(iv, lo))), []*Term{Select(na, iv)}), na)
	}
	return na
}

func (x *Ex) sliceOp(st *State, fr *Frame, i *ssa.Slice) Val {
	lo := IntLit(0)
	if i.Low != nil {
		lo = x.term(st, fr, i.Low)
	}
	switch u := types.Unalias(i.X.Type()).Underlying().(type) {
	case *types.Pointer: // array
		at := u.Elem().Underlying().(*types.Array)
		a := x.asAddr(st, x.val(st, fr, i.X), i.X.Type())
		if len(a.path) != 0 {
			panic(unsupported("slice of array field"))
		}
		var ref *Term
		if a.cell != nil {
			ref = x.forward(st, a.cell)
		} else {
			ref = a.ref
		}
		hi := IntLit(at.Len())
		if i.High != nil {
			hi = x.term(st, fr, i.High)
		}
		if lo != IntLit(0) || i.Max != nil {
			panic(unsupported("array slicing with bounds"))
		}
		return MkSlice(ref, hi, IntLit(at.Len()))
	case *types.Slice:
		s := x.term(st, fr, i.X)
		hi := SLen(s)
		if i.High != nil {
			hi = x.term(st, fr, i.High)
		}
		x.checkCond(st, fr, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, SCap(s))), i.Pos())
		if lo == IntLit(0) {
			cp := SCap(s)
			if i.Max != nil {
				cp = x.term(st, fr, i.Max)
			}
			return MkSlice(SRef(s), hi, cp)
		}
		x.note("slices taken at a non-zero offset are treated as copies (writes through them are not reflected in the original)")
		return x.copyContents(st, u.Elem(), s, lo, hi)
	default: // string
		s := x.term(st, fr, i.X)
		hi := StrLen(s)
		if i.High != nil {
			hi = x.term(st, fr, i.High)
		}
		x.checkCond(st, fr, "slice-bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, StrLen(s))), i.Pos())
		return StrSub(s, lo, Sub(hi, lo))
	}
}

func StrLen(s *Term) *Term {
	if s.op == "str" {
		return IntLit(int64(len(s.sval)))
	}
	if s.op == "uf:str.++" {
		r := IntLit(0)
		for _, a := range s.args {
			r = Add(r, StrLen(a))
		}
		return r
	}
	return UF("str.len", Int, s)
}

func StrSub(s, lo, n *Term) *Term {
	if s.op == "str" && lo.op == "int" && n.op == "int" && lo.ival >= 0 && n.ival >= 0 && lo.ival+n.ival <= int64(len(s.sval)) {
		return StrLit(s.sval[lo.ival : lo.ival+n.ival])
	}
	if lo == IntLit(0) && n == StrLen(s) {
		return s
	}
	return UF("str.substr", Str, s, lo, n)
}

// Concat is kept right-nested and flat so that associativity needs no reasoning.
func Concat(parts ...*Term) *Term {
	var flat []*Term
	var add func(t *Term)
	add = func(t *Term) {
		if t.op == "uf:str.++" {
			for _, a := range t.args {
				add(a)
			}
			return
		}
		if t.op == "str" {
			if t.sval == "" {
				return
			}
			if n := len(flat); n > 0 && flat[n-1].op == "str" {
				flat[n-1] = StrLit(flat[n-1].sval + t.sval)
				return
			}
		}
		flat = append(flat, t)
	}
	for _, p := range parts {
		add(p)
	}
	if len(flat) == 0 {
		return StrLit("")
	}
	r := flat[len(flat)-1]
	for i := len(flat) - 2; i >= 0; i-- {
		r = UF("str.++", Str, flat[i], r)
	}
	return r
}

// ---- operators

func (x *Ex) binop(st *State, fr *Frame, op token.Token, a, b Val, ta, tb types.Type, pos token.Pos) Val {
	if op == token.EQL || op == token.NEQ {
		r := x.eqVals(st, a, b, ta, tb)
		if op == token.NEQ {
			r = Not(r)
		}
		return r
	}
	p, q := x.toTerm(st, a, ta), x.toTerm(st, b, tb)
	if p.sort == Str {
		switch op {
		case token.ADD:
			return Concat(p, q)
		case token.LSS:
			return UF("str.<", Bool, p, q)
		case token.GTR:
			return UF("str.<", Bool, q, p)
		case token.LEQ:
			return UF("str.<=", Bool, p, q)
		case token.GEQ:
			return UF("str.<=", Bool, q, p)
		}
	}
	switch op {
	case token.ADD:
		return Add(p, q)
	case token.SUB:
		return Sub(p, q)
	case token.MUL:
		return Mul(p, q)
	case token.LSS:
		return Lt(p, q)
	case token.LEQ:
		return Le(p, q)
	case token.GTR:
		return Lt(q, p)
	case token.GEQ:
		return Le(q, p)
	case token.QUO:
		if p.sort == Int {
			x.checkCond(st, fr, "division-by-zero", Not(Eq(q, IntLit(0))), pos)
			return UF("go.div", Int, p, q)
		}
		return UF("go.fdiv", Real, p, q)
	case token.REM:
		x.checkCond(st, fr, "division-by-zero", Not(Eq(q, IntLit(0))), pos)
		return UF("go.rem", Int, p, q)
	case token.AND, token.OR, token.XOR, token.SHL, token.SHR, token.AND_NOT:
		if p.op == "int" && q.op == "int" {
			switch op {
			case token.AND:
				return IntLit(p.ival & q.ival)
			case token.OR:
				return IntLit(p.ival | q.ival)
			case token.SHL:
				return IntLit(p.ival << uint(q.ival))
			}
		}
		if p.sort == Int {
			r := UF("go.bit"+op.String(), Int, p, q)
			return r
		}
	}
	panic(unsupported("operator %s on %s", op, ta))
}

func isNilConst(v Val) bool {
	t, ok := v.(*Term)
	return ok && (t == IfNil || t == NilSlice || t.op == "int" && t.ival == 0)
}

func (x *Ex) eqVals(st *State, a, b Val, ta, tb types.Type) *Term {
	switch ta.Underlying().(type) {
	case *types.Signature, *types.Pointer:
		// comparisons with nil of engine-level values
		for _, p := range [][2]Val{{a, b}, {b, a}} {
			switch p[0].(type) {
			case *Closure:
				if isNilConst(p[1]) {
					return False
				}
			case *Addr:
				if isNilConst(p[1]) {
					ad := p[0].(*Addr)
					if ad.cell != nil || ad.idx != nil || len(ad.path) > 0 {
						return False
					}
				}
			}
		}
		if p, ok := a.(*Addr); ok {
			if q, ok := b.(*Addr); ok && p.cell != nil && q.cell != nil && len(p.path) == 0 && len(q.path) == 0 {
				return BoolLit(p.cell == q.cell)
			}
		}
	case *types.Slice:
		// only comparison with nil is legal
		if isNilConst(b) {
			return Eq(SRef(x.toTerm(st, a, ta)), IntLit(0))
		}
		if isNilConst(a) {
			return Eq(SRef(x.toTerm(st, b, tb)), IntLit(0))
		}
	}
	p, q := x.toTerm(st, a, ta), x.toTerm(st, b, tb)
	if p.sort != q.sort {
		// interface compared with a concrete value
		if p.sort == Ifc {
			q = BoxOf(boxFor(tb), q)
		} else if q.sort == Ifc {
			p = BoxOf(boxFor(ta), p)
		}
	}
	return Eq(p, q)
}

func (x *Ex) convStruct(t *Term, from, to types.Type) *Term {
	fs, ok := types.Unalias(from).Underlying().(*types.Struct)
	if !ok {
		panic(unsupported("conversion %s to %s", from, to))
	}
	a, b := structOf(from), structOf(to)
	args := make([]*Term, len(b.dt.fields))
	for i := 0; i < fs.NumFields(); i++ {
		j, ok1 := a.idx[i]
		k, ok2 := b.idx[i]
		if !ok1 || !ok2 {
			panic(unsupported("conversion %s to %s", from, to))
		}
		args[k] = Sel(a.dt, j, t)
	}
	for k := range args {
		if args[k] == nil {
			args[k] = False
		}
	}
	return MkDT(b.dt, args...)
}

func (x *Ex) convert(st *State, fr *Frame, i *ssa.Convert) Val {
	v := x.val(st, fr, i.X)
	from, to := sortOf(i.X.Type()), sortOf(i.Type())
	t := x.toTerm(st, v, i.X.Type())
	if from == to {
		return t
	}
	ft, tt := types.Unalias(i.X.Type()).Underlying(), types.Unalias(i.Type()).Underlying()
	switch {
	case from == Str && to == SliceS:
		// []byte(s) / []rune(s): fresh slice whose contents stand for s
		et := elemOf(tt)
		r := x.newRef(st)
		h := elemHeap(et)
		a := UF("bytesOf:"+tkey(et), ArrSort(Int, Int), t)
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, a))
		n := UF("bytesLen:"+tkey(et), Int, t)
		x.assumeQ(Le(IntLit(0), n), n)
		return MkSlice(r, n, n)
	case from == SliceS && to == Str:
		et := elemOf(ft)
		a := x.arr(st, et, t)
		if a.op == "uf:bytesOf:"+tkey(et) && SLen(t) == UF("bytesLen:"+tkey(et), Int, a.args[0]) {
			return a.args[0]
		}
		return UF("stringOf:"+tkey(et), Str, a, SLen(t))
	case from == Int && to == Str:
		return UF("runeString", Str, t)
	case from == Int && to == Real:
		return mk("to_real", Real, t)
	case from == Real && to == Int:
		return UF("trunc", Int, t)
	}
	panic(unsupported("conversion %s to %s", i.X.Type(), i.Type()))
}

func (x *Ex) typeAssert(st *State, fr *Frame, i *ssa.TypeAssert) {
	v := x.term(st, fr, i.X)
	var ok, val *Term
	if it, isI := types.Unalias(i.AssertedType).Underlying().(*types.Interface); isI {
		val = v
		switch {
		case v == IfNil:
			ok = False
		case it.NumMethods() == 0:
			ok = Not(Eq(v, IfNil))
		case types.Implements(i.X.Type(), it):
			ok = Not(Eq(v, IfNil))
		case strings.HasPrefix(v.op, "box:"):
			ok = UF("implements:"+tkey(i.AssertedType), Bool, v)
			if bt, have := x.eng.typeOfBox(v.op[4:]); have {
				ok = BoolLit(types.Implements(bt, it))
			}
		default:
			ok = And(Not(Eq(v, IfNil)), UF("implements:"+tkey(i.AssertedType), Bool, v))
		}
	} else {
		b := boxFor(i.AssertedType)
		x.eng.boxTypes[b.ctor] = i.AssertedType
		ok = IsBox(b, v)
		val = Unbox(b, v)
		if hasRefs(i.AssertedType) {
			key := "unbox|" + itoa(val.id) + "|" + itoa(st.alloc.term().id)
			if !x.noted[key] {
				x.noted[key] = true
				for _, f := range wf(i.AssertedType, val, st.alloc.term()) {
					x.assumeQ(Implies(ok, f), val)
				}
			}
		}
	}
	if i.CommaOk {
		z := zeroOf(i.AssertedType)
		x.set(st, fr, i, Tuple{Ite(ok, val, z), ok})
		return
	}
	x.checkCond(st, fr, "type-assertion", ok, i.Pos())
	x.set(st, fr, i, val)
}

// ---- calls

func (x *Ex) callCommon(st *State, fr *Frame, c *ssa.CallCommon, site ssa.Instruction, pos token.Pos) Val {
	args := make([]Val, len(c.Args))
	for i, a := range c.Args {
		args[i] = x.val(st, fr, a)
	}
	var fnv Val
	if c.IsInvoke() {
		fnv = x.val(st, fr, c.Value)
	} else if _, isF := c.Value.(*ssa.Function); !isF {
		if _, isB := c.Value.(*ssa.Builtin); !isB {
			fnv = x.val(st, fr, c.Value)
		}
	}
	return x.invoke(st, fr, c, args, fnv, pos)
}

func argTypes(c *ssa.CallCommon) []types.Type {
	out := make([]types.Type, len(c.Args))
	for i, a := range c.Args {
		out[i] = a.Type()
	}
	return out
}

func (x *Ex) invoke(st *State, fr *Frame, c *ssa.CallCommon, args []Val, fnv Val, pos token.Pos) Val {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, fr, b.Name(), c, args, pos)
	}
	ats := argTypes(c)
	if c.IsInvoke() {
		recv := x.toTerm(st, fnv, c.Value.Type())
		return x.invokeMethod(st, fr, c.Value.Type(), c.Method, recv, args, ats, pos)
	}
	if f, ok := c.Value.(*ssa.Function); ok {
		return x.callFn(st, fr, f, nil, args, ats, pos)
	}
	return x.callValue(st, fr, fnv, c.Value.Type(), args, ats, pos)
}

// callValue calls a function value.
func (x *Ex) callValue(st *State, fr *Frame, fv Val, ft types.Type, args []Val, ats []types.Type, pos token.Pos) Val {
	switch f := fv.(type) {
	case *Closure:
		if f.pred != nil {
			return f.pred(args)
		}
		return x.callFn(st, fr, f.fn, f.binds, args, ats, pos)
	case *Term:
		if f.op == "ite" {
			// split on the choice of function
			s1 := st.clone()
			s1.guard = And(st.guard, f.args[0])
			s2 := st.clone()
			s2.guard = And(st.guard, Not(f.args[0]))
			if s1.guard == False {
				return x.callValue(st, fr, f.args[2], ft, args, ats, pos)
			}
			if s2.guard == False {
				return x.callValue(st, fr, f.args[1], ft, args, ats, pos)
			}
			v1 := x.callValue(s1, fr, f.args[1], ft, args, ats, pos)
			v2 := x.callValue(s2, fr, f.args[2], ft, args, ats, pos)
			sig := types.Unalias(ft).Underlying().(*types.Signature)
			return x.join2(st, s1, s2, v1, v2, sig)
		}
		if strings.HasPrefix(f.op, "uf:clo:") {
			fn := cloTab[f.op[3:]]
			var binds []Val
			for _, b := range f.args {
				binds = append(binds, b)
			}
			return x.callFn(st, fr, fn, binds, args, ats, pos)
		}
		x.checkCond(st, fr, "nil-func-call", Not(Eq(f, IntLit(0))), pos)
		return x.opaqueCall(st, fr, f, ft, args, ats, pos)
	}
	panic(unsupported("call of %T", fv))
}

func (x *Ex) join2(st, s1, s2 *State, v1, v2 Val, sig *types.Signature) Val {
	if s1.guard == False && s2.guard == False {
		st.guard = False
		return nil
	}
	if s1.guard == False {
		*st = *s2
		return v2
	}
	if s2.guard == False {
		*st = *s1
		return v1
	}
	rets := []retv{{s1, v1}, {s2, v2}}
	for i := range rets {
		rets[i].val = x.normRet(rets[i].st, rets[i].val, sig.Results(), rets, i)
	}
	m := x.mergeStates([]*State{s1, s2})
	var rt types.Type = sig.Results()
	if sig.Results().Len() == 1 {
		rt = sig.Results().At(0).Type()
	}
	var v Val
	if rets[0].val != nil {
		v = x.mergeVals(m, rt, []*Term{s1.guard, s2.guard}, []Val{rets[0].val, rets[1].val})
	}
	*st = *m
	return v
}

// fnKey names a function for models and intrinsics.
func fnKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	return f.String()
}

func (x *Ex) callFn(st *State, fr *Frame, f *ssa.Function, binds []Val, args []Val, ats []types.Type, pos token.Pos) Val {
	key := fnKey(f)
	// bound method wrappers and thunks: run their synthetic bodies
	if f.Pkg != nil && f.Pkg.Pkg.Path() == vcPath || strings.HasPrefix(key, vcPath+".") {
		return x.vcCall(st, fr, f, key, args, ats, pos)
	}
	if m := x.eng.model(key, x.h); m != nil && !x.inModel(m) {
		x.trusted["model of "+key] = true
		return x.enter(st, fr, m, nil, args, pos)
	}
	if v, ok := x.regexCall(st, fr, pos, key, args, ats, f.Signature.Results()); ok {
		return v
	}
	if v, ok := x.intrinsic(st, fr, f, key, args, ats, pos); ok {
		return v
	}
	if h := x.eng.contractFor(f); h != nil {
		if u := x.curUse(); u != nil && u.target == f && fr.fn == u.h.fn {
			return x.useTarget(st, fr, u, args, ats)
		}
		if x.mode == "verify" && fr.fn == x.h.fn && x.h.target == f && len(x.useStack) == 0 && !x.targetEntered {
			x.targetEntered = true
			x.entry = st.clone()
			return x.enter(st, fr, f, binds, args, pos)
		}
		if fr.fn == x.h.fn && x.h.target == f && len(x.useStack) == 0 {
			// a harness may call its target several times: each call runs the real body
			return x.enter(st, fr, f, binds, args, pos)
		}
		if !h.standalone && !x.eng.inlineFor(x.h, f) {
			return x.useContract(st, fr, h, args, ats, pos)
		}
	}
	if f.Blocks == nil || !isRepoFn(f) && !isWrapper(f) {
		return x.external(st, fr, f, key, args, ats, pos)
	}
	return x.enter(st, fr, f, binds, args, pos)
}

func isWrapper(f *ssa.Function) bool {
	return f.Synthetic != "" && f.Blocks != nil
}

func (x *Ex) inModel(m *ssa.Function) bool {
	for _, f := range x.stack {
		if f == m {
			return true
		}
	}
	return false
}

// enter inlines a body.
func (x *Ex) enter(st *State, fr *Frame, f *ssa.Function, binds []Val, args []Val, pos token.Pos) Val {
	for _, g := range x.stack {
		if g == f && f.Parent() == nil && x.specDepth == 0 && !x.eng.unrollable(f) {
			panic(unsupported("recursive call of %s needs a contract", f))
		}
	}
	if len(x.stack) > 80 {
		panic(unsupported("call depth exceeded at %s", f))
	}
	x.stack = append(x.stack, f)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	cs := fr.cs + ">" + shortFn(f) + "@" + itoa(x.callOrd(fr, pos, f))
	v, n := x.call(fr, st, f, args, binds, cs, false)
	*st = *n
	return v
}

// callOrd numbers calls of f within its caller, so that call strings do not depend on line numbers.
func (x *Ex) callOrd(fr *Frame, pos token.Pos, f *ssa.Function) int {
	if fr.ords == nil {
		fr.ords = map[ordKey]int{}
		fr.ordN = map[string]int{}
	}
	k := ordKey{pos, f}
	if n, ok := fr.ords[k]; ok {
		return n
	}
	n := fr.ordN[f.String()]
	fr.ordN[f.String()] = n + 1
	fr.ords[k] = n
	return n
}

type ordKey struct {
	pos token.Pos
	f   *ssa.Function
}

func (x *Ex) invokeMethod(st *State, fr *Frame, it types.Type, m *types.Func, recv *Term, args []Val, ats []types.Type, pos token.Pos) Val {
	x.checkCond(st, fr, "nil-interface-call", Not(Eq(recv, IfNil)), pos)
	if recv.op == "ite" && (strings.HasPrefix(recv.args[1].op, "box:") || strings.HasPrefix(recv.args[2].op, "box:")) {
		s1 := st.clone()
		s1.guard = And(st.guard, recv.args[0])
		s2 := st.clone()
		s2.guard = And(st.guard, Not(recv.args[0]))
		var v1, v2 Val
		if s1.guard != False {
			v1 = x.invokeMethod(s1, fr, it, m, recv.args[1], args, ats, pos)
		}
		if s2.guard != False {
			v2 = x.invokeMethod(s2, fr, it, m, recv.args[2], args, ats, pos)
		}
		return x.join2(st, s1, s2, v1, v2, m.Type().(*types.Signature))
	}
	if strings.HasPrefix(recv.op, "box:") {
		if t, ok := x.eng.typeOfBox(recv.op[4:]); ok {
			if f := x.eng.prog.LookupMethod(t, m.Pkg(), m.Name()); f != nil {
				return x.callFn(st, fr, f, nil, append([]Val{recv.args[0]}, args...), append([]types.Type{t}, ats...), pos)
			}
		}
	}
	key := "(" + types.TypeString(it, nil) + ")." + m.Name()
	if mm := x.eng.model(key, x.h); mm != nil {
		x.trusted["model of "+key] = true
		return x.enter(st, fr, mm, nil, append([]Val{recv}, args...), pos)
	}
	return x.externalMethod(st, fr, key, m, recv, it, args, ats, pos)
}

func (x *Ex) builtin(st *State, fr *Frame, name string, c *ssa.CallCommon, args []Val, pos token.Pos) Val {
	switch name {
	case "len", "cap":
		t := c.Args[0].Type()
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Slice:
			s := x.toTerm(st, args[0], t)
			if name == "cap" {
				return SCap(s)
			}
			return SLen(s)
		case *types.Map:
			return x.mapLen(st, u, x.toTerm(st, args[0], t))
		case *types.Basic:
			l := StrLen(x.toTerm(st, args[0], t))
			return l
		case *types.Array:
			return IntLit(u.Len())
		case *types.Pointer:
			return IntLit(u.Elem().Underlying().(*types.Array).Len())
		}
	case "append":
		t := c.Args[0].Type()
		et := elemOf(t)
		s := x.toTerm(st, args[0], t)
		if b, ok := types.Unalias(c.Args[1].Type()).Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			panic(unsupported("append of string"))
		}
		return x.appendSlice(st, et, s, x.toTerm(st, args[1], c.Args[1].Type()))
	case "copy":
		t := c.Args[0].Type()
		et := elemOf(t)
		if sortOf(c.Args[1].Type()) == Str {
			panic(unsupported("copy from string"))
		}
		d, s := x.toTerm(st, args[0], t), x.toTerm(st, args[1], c.Args[1].Type())
		n := Ite(Lt(SLen(s), SLen(d)), SLen(s), SLen(d))
		h := elemHeap(et)
		old, src := x.arr(st, et, d), x.arr(st, et, s)
		na := x.fresh("copied", old.sort)
		iv := BVar("i", Int)
		x.assumeQ(Forall([]*Term{iv}, Eq(Select(na, iv), Ite(And(Le(IntLit(0), iv), Lt(iv, n)), Select(src, iv), Select(old, iv))), []*Term{Select(na, iv)}), na)
		x.setHeapRef(st, h, SRef(d), Store(x.heap(st, h), SRef(d), na))
		return n
	case "delete":
		mt := types.Unalias(c.Args[0].Type()).Underlying().(*types.Map)
		m := x.toTerm(st, args[0], c.Args[0].Type())
		s2 := st.clone()
		x.mapDelete(s2, mt, m, x.toTerm(st, args[1], c.Args[1].Type()))
		// deleting from the nil map does nothing
		nz := Not(Eq(m, IntLit(0)))
		for _, h := range []string{domHeap(mt), lenHeap(mt)} {
			x.setHeap(st, h, Ite(nz, x.heap(s2, h), x.heap(st, h)))
		}
		return nil
	case "ssa:wrapnilchk":
		return args[0]
	case "print", "println":
		return nil
	case "recover":
		return IfNil
	case "min", "max":
		r := x.toTerm(st, args[0], c.Args[0].Type())
		for i, a := range args[1:] {
			q := x.toTerm(st, a, c.Args[i+1].Type())
			if name == "min" {
				r = Ite(Lt(q, r), q, r)
			} else {
				r = Ite(Lt(r, q), q, r)
			}
		}
		return r
	}
	panic(unsupported("builtin %s", name))
}
