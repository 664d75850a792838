package main

import (
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type modRegion struct {
	all   bool
	heap  string
	ref   *Term
	spare *Term // when set: only indices >= spare are modified
	pred  func(r *Term) *Term
}

type useCtx struct {
	h      *Harness
	target *ssa.Function
	pre    *State
	mods   []*modRegion
	result Val
	called bool
	name   string
}

func (x *Ex) curUse() *useCtx {
	if len(x.useStack) == 0 {
		return nil
	}
	return x.useStack[len(x.useStack)-1]
}

// specCall evaluates a specification closure in state s and returns its value; the state is not changed.
func (x *Ex) specCall(s *State, c *Closure, args []Val) Val {
	if c.pred != nil {
		return c.pred(args)
	}
	x.specDepth++
	x.muted++
	defer func() { x.specDepth--; x.muted-- }()
	st := s.clone()
	st.guard = True
	ats := []types.Type{}
	for i := 0; i < c.fn.Signature.Params().Len(); i++ {
		ats = append(ats, c.fn.Signature.Params().At(i).Type())
	}
	fr := x.curFrame
	if fr == nil {
		fr = x.topFrame
	}
	return x.callFn(st, &Frame{fn: fr.fn, env: map[ssa.Value]Val{}, parent: fr.parent, depth: fr.depth, spec: true, cs: fr.cs + ">spec", info: fr.info}, c.fn, c.binds, args, ats, token.NoPos)
}

func asClosure(v Val) *Closure {
	switch c := v.(type) {
	case *Closure:
		return c
	case *Term:
		if strings.HasPrefix(c.op, "uf:clo:") {
			cl := &Closure{fn: cloTab[c.op[3:]]}
			for _, a := range c.args {
				cl.binds = append(cl.binds, a)
			}
			return cl
		}
	}
	panic(unsupported("specification closure is not a literal function"))
}

func (x *Ex) quantBody(st *State, c *Closure, bv *Term) *Term {
	x.bvs = append(x.bvs, bv)
	defer func() { x.bvs = x.bvs[:len(x.bvs)-1] }()
	return x.specCall(st, c, []Val{bv}).(*Term)
}

func (x *Ex) vcCall(st *State, fr *Frame, f *ssa.Function, key string, args []Val, ats []types.Type, pos token.Pos) Val {
	name := key[strings.LastIndex(key, ".")+1:]
	t := func(i int) *Term { return x.toTerm(st, args[i], ats[i]) }
	lit := func(i int) string {
		s := t(i)
		if s.op != "str" {
			panic(unsupported("vc.%s needs a literal name", name))
		}
		return s.sval
	}
	u := x.curUse()
	switch name {
	case "Requires":
		c := t(0)
		if u != nil {
			x.obligeUse(st, u, c, pos)
		}
		x.assume(st, c)
		return nil
	case "Ensures":
		c := t(1)
		if u != nil {
			x.assume(st, c)
			return nil
		}
		x.oblige(st, "ensures", lit(0), c, fr, pos)
		return nil
	case "Assert":
		c := t(1)
		if u != nil {
			return nil
		}
		x.oblige(st, "assert", lit(0), c, fr, pos)
		x.assume(st, c)
		return nil
	case "Assume":
		x.trusted["assumed in "+shortFn(fr.fn)+": "+lit(0)] = true
		x.assume(st, t(1))
		return nil
	case "Cover":
		if u == nil && x.muted == 0 {
			x.covers = append(x.covers, &Obl{name: "cover:" + lit(0), guard: st.guard, goal: False, nAss: len(x.assumes), kind: "cover"})
		}
		return nil
	case "Implies":
		return Implies(t(0), t(1))
	case "Forall", "Exists":
		lo, hi := t(0), t(1)
		c := asClosure(args[2])
		if lo.op == "int" && hi.op == "int" && hi.ival-lo.ival <= 24 {
			var out []*Term
			for k := lo.ival; k < hi.ival; k++ {
				out = append(out, x.specCall(st, c, []Val{IntLit(k)}).(*Term))
			}
			if name == "Forall" {
				return And(out...)
			}
			return Or(out...)
		}
		iv := BVar("i", Int)
		body := x.quantBody(st, c, iv)
		rng := And(Le(lo, iv), Lt(iv, hi))
		if name == "Forall" {
			b := Implies(rng, body)
			return And(append(pointInstances(iv, b), Forall([]*Term{iv}, b))...)
		}
		b := And(rng, body)
		return Or(append(pointInstances(iv, b), Exists([]*Term{iv}, b))...)
	case "ForallStr":
		c := asClosure(args[0])
		kv := BVar("s", Str)
		return Forall([]*Term{kv}, x.quantBody(st, c, kv))
	case "ForallVal":
		c := asClosure(args[0])
		bv := BVar("x", sortOf(c.fn.Params[0].Type()))
		return Forall([]*Term{bv}, x.quantBody(st, c, bv))
	case "ForallPtr":
		// every object of a type; what is not allocated yet counts as zero, and is never read before it is initialised
		c := asClosure(args[0])
		pv := BVar("p", Int)
		x.unallocatedIsZero(x.heap(st, ptrHeap(elemOf(c.fn.Params[0].Type()))), elemOf(c.fn.Params[0].Type()))
		return Forall([]*Term{pv}, Implies(Lt(IntLit(0), pv), x.quantBody(st, c, pv)))
	case "ForallMap":
		// every map of a type; what is not allocated yet counts as empty
		c := asClosure(args[0])
		pv := BVar("m", Int)
		x.unallocatedIsEmpty(x.heap(st, domHeap(types.Unalias(c.fn.Params[0].Type()).Underlying().(*types.Map))))
		return Forall([]*Term{pv}, Implies(Lt(IntLit(0), pv), x.quantBody(st, c, pv)))
	case "ForallSlice":
		// every index of every backing array of a type
		c := asClosure(args[0])
		rv, iv := BVar("r", Int), BVar("i", Int)
		x.bvs = append(x.bvs, rv, iv)
		body := x.specCall(st, c, []Val{MkSlice(rv, Add(iv, IntLit(1)), Add(iv, IntLit(1))), iv}).(*Term)
		x.bvs = x.bvs[:len(x.bvs)-2]
		return Forall([]*Term{rv, iv}, Implies(And(Lt(IntLit(0), rv), Le(IntLit(0), iv)), body))
	case "AllKeys", "AnyKey":
		mt := types.Unalias(ats[0]).Underlying().(*types.Map)
		c := asClosure(args[1])
		m := t(0)
		kv := BVar("k", sortOf(mt.Key()))
		dh := x.heap(st, domHeap(mt))
		x.nilMapFacts(dh)
		d := Select(Select(dh, m), kv)
		body := x.quantBody(st, c, kv)
		if name == "AllKeys" {
			return Forall([]*Term{kv}, Implies(d, body))
		}
		return Exists([]*Term{kv}, And(d, body))
	case "Has":
		mt := types.Unalias(ats[0]).Underlying().(*types.Map)
		_, ok := x.mapLookup(st, mt, t(0), t(1))
		return ok
	case "Same":
		return x.eqSame(st, args[0], args[1], ats[0])
	case "SameFunc":
		return Eq(t(0), t(1))
	case "SameMap", "SameSlice":
		return Eq(t(0), t(1))
	case "Ref":
		// identity of a reference value, as an integer
		v := t(0)
		if v.sort == SliceS {
			return SRef(v)
		}
		return v
	case "Snap":
		et := elemOf(ats[0])
		s := t(0)
		r := x.newRef(st)
		h := elemHeap(et)
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, x.arr(st, et, s)))
		return MkSlice(Ite(Eq(SRef(s), IntLit(0)), IntLit(0), r), SLen(s), Ite(Eq(SRef(s), IntLit(0)), IntLit(0), SLen(s)))
	case "SnapMap":
		mt := types.Unalias(ats[0]).Underlying().(*types.Map)
		m := t(0)
		r := x.newRef(st)
		for _, h := range []string{domHeap(mt), valHeap(mt), lenHeap(mt)} {
			hh := x.heap(st, h)
			if heapTab[h].kind == 'D' {
				x.nilMapFacts(hh)
			}
			x.setHeapRef(st, h, r, Store(hh, r, Select(hh, m)))
		}
		return Ite(Eq(m, IntLit(0)), IntLit(0), r)
	case "Pre":
		return st.clone()
	case "Old":
		return x.specCall(x.oldState(st, x.memOf(args[0])), asClosure(args[1]), nil)
	case "Modifies", "ModifiesSpare", "ModifiesElems":
		// the variadic slice of interfaces holds the targets
		va := t(0)
		n, ok := x.litLen(va)
		if !ok {
			panic(unsupported("vc.%s needs literal arguments", name))
		}
		arr := x.arr(st, elemOf(ats[0]), va)
		for i := 0; i < n; i++ {
			x.addMod(st, Select(arr, IntLit(int64(i))), name, u)
		}
		return nil
	case "ModifiesAny":
		// every object (elements, map) of the arguments' types
		va := t(0)
		n, ok := x.litLen(va)
		if !ok {
			panic(unsupported("vc.%s needs literal arguments", name))
		}
		arr := x.arr(st, elemOf(ats[0]), va)
		for i := 0; i < n; i++ {
			b := Select(arr, IntLit(int64(i)))
			bt, ok := x.eng.typeOfBox(strings.TrimPrefix(b.op, "box:"))
			if !ok {
				panic(unsupported("vc.ModifiesAny argument type"))
			}
			all := func(r *Term) *Term { return True }
			switch ty := types.Unalias(bt).Underlying().(type) {
			case *types.Pointer:
				x.addRegion(&modRegion{heap: ptrHeap(ty.Elem()), pred: all, all: true}, u)
			case *types.Slice:
				x.addRegion(&modRegion{heap: elemHeap(ty.Elem()), pred: all, all: true}, u)
			case *types.Map:
				for _, h := range []string{domHeap(ty), valHeap(ty), lenHeap(ty)} {
					x.addRegion(&modRegion{heap: h, pred: all, all: true}, u)
				}
			default:
				panic(unsupported("vc.ModifiesAny of %s", bt))
			}
		}
		return nil
	case "ModifiesMapsWhere":
		// every map of the given type whose identity satisfies the predicate
		mt := types.Unalias(ats[0]).Underlying().(*types.Map)
		c := asClosure(args[1])
		snap := st.clone()
		for _, h := range []string{domHeap(mt), valHeap(mt), lenHeap(mt)} {
			m := &modRegion{heap: h, pred: func(r *Term) *Term {
				return x.specCall(snap, c, []Val{r}).(*Term)
			}}
			x.addRegion(m, u)
		}
		return nil
	case "Invariant":
		if u == nil {
			b := t(0)
			if !strings.HasPrefix(b.op, "box:") {
				panic(unsupported("vc.Invariant needs a function literal"))
			}
			c := asClosure(b.args[0])
			x.templates = append(x.templates, &template{n: len(x.templates), clo: c})
		}
		return nil
	case "Any":
		return x.freshOf(st, "any", f.Signature.Results().At(0).Type())
	case "AnyOf":
		return x.freshOf(st, "any", ats[0])
	case "NewError":
		return x.newError(st, "model")
	case "Fresh":
		v := t(0)
		r := v
		if v.sort == SliceS {
			r = SRef(v)
		}
		e := x.entry
		if u != nil {
			e = u.pre
		}
		if e == nil {
			return True
		}
		return Or(Eq(r, IntLit(0)), Le(e.alloc.term(), r))
	case "Below":
		// the reference existed in the entry state
		v := t(0)
		if v.sort == SliceS {
			v = SRef(v)
		}
		e := x.entry
		if u != nil {
			e = u.pre
		}
		if e == nil {
			return True
		}
		return Lt(v, e.alloc.term())
	case "Allocated":
		// the reference exists in the current state
		v := t(0)
		if v.sort == SliceS {
			v = SRef(v)
		}
		return Lt(v, st.alloc.term())
	case "AllocatedIn":
		// the reference existed in the remembered state
		v := t(1)
		if v.sort == SliceS {
			v = SRef(v)
		}
		return Lt(v, x.memOf(args[0]).alloc.term())
	case "Ghost", "GhostVal":
		// an uninterpreted relation with a native reading; first argument names it
		n := lit(0)
		va := t(1)
		k, ok := x.litLen(va)
		if !ok {
			panic(unsupported("vc.Ghost needs literal arguments"))
		}
		arr := x.arr(st, elemOf(ats[1]), va)
		var ts []*Term
		for i := 0; i < k; i++ {
			b := Select(arr, IntLit(int64(i)))
			if strings.HasPrefix(b.op, "box:") {
				b = b.args[0]
			}
			ts = append(ts, b)
		}
		if name == "GhostVal" {
			rt := f.Signature.Results().At(0).Type()
			sr := sortOf(rt)
			g := UF(ufSig("ghost:"+n, ts), sr, ts...)
			if sr == SliceS {
				// every slice has a length within its capacity
				for _, w := range []*Term{Le(IntLit(0), SRef(g)), Le(IntLit(0), SLen(g)), Le(SLen(g), SCap(g)), Implies(Eq(SRef(g), IntLit(0)), Eq(SCap(g), IntLit(0)))} {
					x.assumeWf(w, g)
				}
			}
			return g
		}
		return UF(ufSig("ghost:"+n, ts), Bool, ts...)
	case "Encoded":
		// decided on the types: nothing to prove by a solver
		if encoded(ats[0].Underlying().(*types.Pointer).Elem(), lit(1), lit(2)) {
			return True
		}
		return False
	case "Define":
		// holds by definition: assumed at every use, nothing to prove
		if u != nil {
			x.assume(st, t(0))
		}
		return nil
	case "Verifying":
		return True
	case "Tuple2":
		panic(unsupported("vc.%s", name))
	}
	panic(unsupported("vc.%s", name))
}

func (x *Ex) eqSame(st *State, a, b Val, t types.Type) *Term {
	return Eq(x.toTerm(st, a, t), x.toTerm(st, b, t))
}

func (x *Ex) oldState(cur, pre *State) *State {
	n := pre.clone()
	n.guard = True
	n.alloc = cur.alloc
	for c, v := range cur.cells {
		if _, ok := pre.cells[c]; ok {
			continue
		}
		if c.glob != nil {
			continue
		}
		if r, f := cur.fwd[c]; f && c.typ != nil {
			if _, isArr := types.Unalias(c.typ).Underlying().(*types.Array); !isArr {
				v = Select(x.heap(cur, ptrHeap(c.typ)), r)
			}
		}
		n.cells[c] = v
	}
	// variables captured by reference since then keep their place: the value is the remembered one, or the current one of a new variable
	var moved []*Cell
	for c, r := range cur.fwd {
		if c.typ == nil || pre.fwd[c] == r {
			continue
		}
		if _, isArr := types.Unalias(c.typ).Underlying().(*types.Array); !isArr {
			moved = append(moved, c)
		}
	}
	sortCells(moved)
	for _, c := range moved {
		r, h := cur.fwd[c], ptrHeap(c.typ)
		var v *Term
		if pv, ok := pre.cells[c]; ok && pv != nil {
			if _, isSt := pv.(*State); isSt {
				continue
			}
			v = x.toTerm(n, pv, c.typ)
		} else {
			v = Select(x.heap(cur, h), r)
		}
		n.heaps[h] = Store(x.heap(n, h), r, v)
	}
	return n
}

func (x *Ex) addMod(st *State, b *Term, name string, u *useCtx) {
	if !strings.HasPrefix(b.op, "box:") {
		panic(unsupported("vc.Modifies argument"))
	}
	bt, ok := x.eng.typeOfBox(b.op[4:])
	if !ok {
		panic(unsupported("vc.Modifies argument type"))
	}
	v := b.args[0]
	var ms []*modRegion
	switch ty := types.Unalias(bt).Underlying().(type) {
	case *types.Pointer:
		ms = append(ms, &modRegion{heap: ptrHeap(ty.Elem()), ref: v})
	case *types.Map:
		ms = append(ms, &modRegion{heap: domHeap(ty), ref: v}, &modRegion{heap: valHeap(ty), ref: v}, &modRegion{heap: lenHeap(ty), ref: v})
	case *types.Slice:
		m := &modRegion{heap: elemHeap(ty.Elem()), ref: SRef(v)}
		if name == "ModifiesSpare" {
			m.spare = SLen(v)
		}
		ms = append(ms, m)
	default:
		panic(unsupported("vc.Modifies of %s", bt))
	}
	for _, m := range ms {
		x.addRegion(m, u)
	}
}

func (x *Ex) addRegion(m *modRegion, u *useCtx) {
	if u != nil {
		u.mods = append(u.mods, m)
		return
	}
	x.mods = append(x.mods, m)
}

// frameFact: outside the regions, reference r of heap h is the same in now and was.
func frameFact(h string, now, was *Term, mods []*modRegion, bound *Term, r *Term, extra ...*Term) *Term {
	hi := heapTab[h]
	conds := append([]*Term{Lt(IntLit(-1), r), Lt(r, bound)}, extra...)
	var partial []*Term
	for _, m := range mods {
		if m.heap != h {
			continue
		}
		if m.pred != nil {
			conds = append(conds, Not(m.pred(r)))
			continue
		}
		if m.spare == nil {
			conds = append(conds, Not(Eq(r, m.ref)))
		}
	}
	whole := Eq(Select(now, r), Select(was, r))
	for _, m := range mods {
		if m.heap == h && m.spare != nil {
			iv := BVar("i", Int)
			partial = append(partial, Implies(Eq(r, m.ref), Forall([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, m.spare)), Eq(Select(Select(now, r), iv), Select(Select(was, r), iv))))))
			whole = Or(whole, Eq(r, m.ref))
		}
	}
	_ = hi
	return Implies(And(conds...), And(append([]*Term{whole}, partial...)...))
}

func (x *Ex) obligeUse(st *State, u *useCtx, c *Term, pos token.Pos) {
	if x.specDepth > 0 || x.muted > 0 || len(x.useStack) > 1 {
		return
	}
	save := x.useStack
	x.useStack = nil
	x.oblige(st, "pre", "requires-of-"+u.h.short(), c, x.curFrame, pos)
	x.useStack = save
}

// useContract replaces a call by the callee's contract.
func (x *Ex) useContract(st *State, fr *Frame, h *Harness, args []Val, ats []types.Type, pos token.Pos) Val {
	x.usedContr[h.name] = true
	for i := range args {
		if _, isC := args[i].(*Closure); !isC {
			args[i] = x.toTerm(st, args[i], ats[i])
		}
	}
	u := &useCtx{h: h, target: h.target, pre: st.clone()}
	x.useStack = append(x.useStack, u)
	saveEntry := x.entry
	g := st.guard
	_, n := x.call(fr, st, h.fn, args, nil, fr.cs+">use:"+h.short()+"@"+itoa(x.callOrd(fr, pos, h.fn)), false)
	x.entry = saveEntry
	x.useStack = x.useStack[:len(x.useStack)-1]
	if !u.called {
		panic(unsupported("contract %s does not call its target", h.name))
	}
	_ = g
	*st = *n
	return u.result
}

// useTarget is the target call inside a contract being used: havoc what may be modified, return anything.
func (x *Ex) useTarget(st *State, fr *Frame, u *useCtx, args []Val, ats []types.Type) Val {
	if u.called {
		panic(unsupported("contract %s calls its target more than once", u.h.name))
	}
	u.called = true
	u.pre = st.clone()
	a0 := st.alloc.term()
	w := x.eng.writes(u.target)
	x.recordAlloc()
	x.bumpAlloc(st, "U")
	var hs []string
	for h := range w.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	for _, h := range hs {
		was := x.heap(st, h)
		now := x.freshHeap(st, h, "U")
		for _, m := range u.mods {
			if m.heap == h && m.ref != nil {
				x.recordHeapRef(h, m.ref, -1)
			}
			if m.heap == h && m.all {
				for _, r := range x.recs {
					r.whole[h] = true
				}
			}
		}
		x.setHeap(st, h, now)
		r := BVar("r", Int)
		f := frameFact(h, now, was, u.mods, a0, r)
		x.assumeRaw(Forall([]*Term{r}, f, []*Term{mk("select", heapTab[h].sort.elem, now, r)}))
	}
	var gs []*ssa.Global
	for g := range w.globals {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].String() < gs[j].String() })
	for _, g := range gs {
		c := x.globCell(g)
		x.recordCell(c)
		st.cells[c] = x.freshOf(st, "g:"+g.Name(), c.typ)
	}
	res := u.target.Signature.Results()
	switch res.Len() {
	case 0:
		u.result = nil
	case 1:
		u.result = x.freshOf(st, "ret:"+u.target.Name(), res.At(0).Type())
	default:
		tp := Tuple{}
		for i := 0; i < res.Len(); i++ {
			tp = append(tp, x.freshOf(st, "ret:"+u.target.Name(), res.At(i).Type()))
		}
		u.result = tp
	}
	return u.result
}

// pointInstances returns the instances of a body at the points its variable is compared with (stored positions); adding them to the
// quantified formula changes nothing, and gives the solver the instances it has no trigger for.
func pointInstances(v *Term, body *Term) []*Term {
	seen := map[*Term]bool{}
	var pts []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || len(pts) >= 4 {
			return
		}
		seen[t] = true
		has := false
		for _, f := range t.free {
			has = has || f == v
		}
		if !has {
			return
		}
		if t.op == "=" && len(t.args) == 2 {
			for i := 0; i < 2; i++ {
				if t.args[i] == v {
					k := t.args[1-i]
					ok := true
					for _, f := range k.free {
						ok = ok && f != v
					}
					for _, p := range pts {
						ok = ok && p != k
					}
					if ok {
						pts = append(pts, k)
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var out []*Term
	for _, k := range pts {
		out = append(out, Subst(body, map[*Term]*Term{v: k}))
	}
	return out
}

// unallocatedIsZero: what is not allocated in a heap version is zero there (nothing reads it before it is initialised).
func (x *Ex) unallocatedIsZero(h *Term, t types.Type) {
	switch h.op {
	case "store":
		x.unallocatedIsZero(h.args[0], t)
		return
	case "ite":
		x.unallocatedIsZero(h.args[1], t)
		x.unallocatedIsZero(h.args[2], t)
		return
	}
	si, ok := symTab[h]
	key := "unalloc|" + itoa(h.id)
	if !ok || x.noted[key] {
		return
	}
	x.noted[key] = true
	p := BVar("p", Int)
	x.assumeRaw(Forall([]*Term{p}, Implies(Le(si.bound, p), Eq(mk("select", h.sort.elem, h, p), zeroOf(t)))))
}

// unallocatedIsEmpty: what is not allocated in a map heap version is an empty map there.
func (x *Ex) unallocatedIsEmpty(h *Term) {
	switch h.op {
	case "store":
		x.unallocatedIsEmpty(h.args[0])
		return
	case "ite":
		x.unallocatedIsEmpty(h.args[1])
		x.unallocatedIsEmpty(h.args[2])
		return
	}
	si, ok := symTab[h]
	key := "unalloc|" + itoa(h.id)
	if !ok || x.noted[key] {
		return
	}
	x.noted[key] = true
	p, k := BVar("p", Int), BVar("k", h.sort.elem.key)
	x.assumeRaw(Forall([]*Term{p, k}, Implies(Le(si.bound, p), Not(mk("select", Bool, mk("select", h.sort.elem, h, p), k)))))
}

var memCells = map[*Term]*State{}

func (x *Ex) memOf(v Val) *State {
	if r := memLookup(v); r != nil {
		return r
	}
	panic(unsupported("vc.Old needs a state from vc.Pre"))
}

func memLookup(v Val) *State {
	if s, ok := v.(*State); ok {
		return s
	}
	k, ok := v.(*Term)
	switch {
	case !ok:
	case stateTab[k] != nil:
		return stateTab[k]
	case k.op == "select":
		// a captured variable, assigned once
		return memCells[k.args[1]]
	case k.op == "ite":
		a, b := memLookup(k.args[1]), memLookup(k.args[2])
		if a == nil || b == nil || a == b {
			if a == nil {
				return b
			}
			return a
		}
	}
	return nil
}

// encoded is vc.Encoded (see there), decided on the source's types.
func encoded(t types.Type, format, exempt string) bool {
	seen := map[string]bool{}
	var walk func(t types.Type) bool
	var fields func(owner string, s *types.Struct, names map[string]bool) bool
	kind := func(t types.Type) bool {
		switch t.Underlying().(type) {
		case *types.Signature, *types.Chan:
			return true
		}
		return false
	}
	tname := func(t types.Type) string {
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return n.Obj().Name()
		}
		return ""
	}
	fields = func(owner string, s *types.Struct, names map[string]bool) bool {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if strings.Contains(","+exempt+",", ","+owner+"."+f.Name()+",") {
				continue
			}
			ok, inline, name := encodedField(f.Name(), !f.Exported(), f.Embedded(), s.Tag(i), format)
			if !ok {
				if kind(f.Type()) {
					continue
				}
				return false
			}
			if inline {
				in, isS := f.Type().Underlying().(*types.Struct)
				if !isS || !fields(tname(f.Type()), in, names) {
					return false
				}
				continue
			}
			if names[name] || !walk(f.Type()) {
				return false
			}
			names[name] = true
		}
		return true
	}
	walk = func(t types.Type) bool {
		k := tkey(t)
		if seen[k] {
			return true
		}
		seen[k] = true
		switch u := t.Underlying().(type) {
		case *types.Signature, *types.Chan:
			return false
		case *types.Basic:
			return u.Info()&types.IsComplex == 0 && u.Kind() != types.UnsafePointer
		case *types.Pointer:
			return walk(u.Elem())
		case *types.Slice:
			return walk(u.Elem())
		case *types.Array:
			return walk(u.Elem())
		case *types.Map:
			return walk(u.Key()) && walk(u.Elem())
		case *types.Struct:
			return fields(tname(t), u, map[string]bool{})
		}
		return true
	}
	return walk(t)
}

func encodedField(field string, unexported, embedded bool, tag, format string) (ok, inline bool, name string) {
	s, tagged := reflect.StructTag(tag).Lookup(format)
	name, opts, _ := strings.Cut(s, ",")
	if unexported || tagged && s == "-" {
		return
	}
	ok = true
	if strings.Contains(","+opts+",", ",inline,") || format == "json" && embedded && name == "" {
		return ok, true, ""
	}
	if name == "" {
		name = field
		if format == "yaml" {
			name = strings.ToLower(field)
		}
	}
	return
}
