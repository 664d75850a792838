package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type Val interface{}

type Cell struct {
	id    int
	typ   types.Type
	name  string
	ghost bool // package-level or iterator state
	glob  *ssa.Global
	born  int   // sequence number of creation
	vsort *Sort // visited sets
}

type pathStep struct {
	field int
	idx   *Term
}

type Addr struct {
	cell *Cell
	heap string // heap name when cell == nil
	ref  *Term
	idx  *Term // element heaps only
	typ  types.Type
	path []pathStep
}

type Closure struct {
	fn    *ssa.Function
	binds []Val
	rec   *recFn
	bound Val // receiver for bound methods
	pred  func([]Val) Val
}

type recFn struct {
	name    string
	results *Sort
	args    []*Sort
}

type Tuple []Val

type Iter struct {
	isMap   bool
	ref     *Term
	mt      *types.Map
	visited *Cell
	dom0    *Term
	str     *Term
	pos     *Cell
}

// Alloc counter: the next unallocated reference is base+off.
type Alloc struct {
	base *Term
	off  int64
}

func (a Alloc) term() *Term { return Add(a.base, IntLit(a.off)) }

type envKey struct {
	fr *Frame
	v  ssa.Value
}

type State struct {
	heaps map[string]*Term
	cells map[*Cell]Val
	fwd   map[*Cell]*Term
	ov    map[envKey]Val
	alloc Alloc
	guard *Term
}

func (s *State) clone() *State {
	n := &State{heaps: make(map[string]*Term, len(s.heaps)), cells: make(map[*Cell]Val, len(s.cells)), fwd: s.fwd, alloc: s.alloc, guard: s.guard}
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	if len(s.fwd) > 0 {
		n.fwd = make(map[*Cell]*Term, len(s.fwd))
		for k, v := range s.fwd {
			n.fwd[k] = v
		}
	} else {
		n.fwd = map[*Cell]*Term{}
	}
	if len(s.ov) > 0 {
		n.ov = make(map[envKey]Val, len(s.ov))
		for k, v := range s.ov {
			n.ov[k] = v
		}
	}
	return n
}

// Heaps.

type heapInfo struct {
	name string
	sort *Sort // of the whole heap
	kind byte  // 'P' pointee, 'E' elements, 'D' map domain, 'V' map values, 'L' map length
	typ  types.Type
}

var heapTab = map[string]*heapInfo{}

func regHeap(name string, kind byte, s *Sort, t types.Type) string {
	if _, ok := heapTab[name]; !ok {
		heapTab[name] = &heapInfo{name, s, kind, t}
	}
	return name
}

func ptrHeap(t types.Type) string {
	return regHeap("P|"+tkey(t), 'P', ArrSort(Int, sortOf(t)), t)
}
func elemHeap(t types.Type) string {
	return regHeap("E|"+tkey(t), 'E', ArrSort(Int, ArrSort(Int, sortOf(t))), t)
}
func mapKeyName(m *types.Map) string { return tkey(m.Key()) + "|" + tkey(m.Elem()) }
func domHeap(m *types.Map) string {
	return regHeap("D|"+mapKeyName(m), 'D', ArrSort(Int, ArrSort(sortOf(m.Key()), Bool)), m)
}
func valHeap(m *types.Map) string {
	return regHeap("V|"+mapKeyName(m), 'V', ArrSort(Int, ArrSort(sortOf(m.Key()), sortOf(m.Elem()))), m)
}
func lenHeap(m *types.Map) string {
	return regHeap("L|"+mapKeyName(m), 'L', ArrSort(Int, Int), m)
}

// symBound: array symbols (heap versions) and the allocation bound for references they contain.
type symInfo struct {
	bound *Term
	heap  *heapInfo
}

var symTab = map[*Term]symInfo{}

func (x *Ex) heap(st *State, name string) *Term {
	if h, ok := st.heaps[name]; ok {
		return h
	}
	hi := heapTab[name]
	h := NamedConst("H0|"+name, hi.sort)
	if _, ok := symTab[h]; !ok {
		symTab[h] = symInfo{x.alloc0, hi}
	}
	return h
}

func (x *Ex) setHeap(st *State, name string, h *Term) {
	x.recordHeap(name)
	st.heaps[name] = h
}

func (x *Ex) freshHeap(st *State, name string, hint string) *Term {
	hi := heapTab[name]
	h := Fresh("H"+hint+"|"+name, hi.sort)
	symTab[h] = symInfo{st.alloc.term(), hi}
	return h
}

// recorders of modified locations (for loops and contracts)
type recorder struct {
	heaps map[string]bool
	cells map[*Cell]bool
	start int // cells born before
	fwds  map[*Cell]bool
	refs  map[string]map[*Term]bool
	alloc bool
	whole map[string]bool
}

func newRecorder(start int) *recorder {
	return &recorder{whole: map[string]bool{}, heaps: map[string]bool{}, cells: map[*Cell]bool{}, fwds: map[*Cell]bool{}, refs: map[string]map[*Term]bool{}, start: start}
}

func (x *Ex) recordHeap(name string) {
	for _, r := range x.recs {
		r.heaps[name] = true
	}
}
func (x *Ex) recordHeapRef(name string, ref *Term, field int) {
	for _, r := range x.recs {
		if r.refs[name] == nil {
			r.refs[name] = map[*Term]bool{}
		}
		r.refs[name][ref] = true
	}
}
func (x *Ex) recordCell(c *Cell) {
	for _, r := range x.recs {
		if c.born < r.start || c.ghost {
			r.cells[c] = true
		}
	}
}
func (x *Ex) recordAlloc() {
	for _, r := range x.recs {
		r.alloc = true
	}
}

func (x *Ex) newRef(st *State) *Term {
	x.recordAlloc()
	r := st.alloc.term()
	st.alloc.off++
	return r
}

// bumpAlloc introduces an allocation base at least as large as the current one.
func (x *Ex) bumpAlloc(st *State, hint string) {
	b := Fresh("alloc"+hint, Int)
	x.setBasePred(b, st.alloc)
	x.assumeRaw(Le(st.alloc.term(), b))
	st.alloc = Alloc{b, 0}
}

func (x *Ex) setBasePred(b *Term, ps ...Alloc) {
	fl := int64(1 << 60)
	for _, p := range ps {
		f := allocFloor[p.base] + p.off
		if f < fl {
			fl = f
		}
	}
	if len(ps) == 1 {
		allocPreds[b] = append(allocPreds[b], allocP{ps[0].base, ps[0].off})
	} else {
		// a join: b is above every one of them
		for _, p := range ps {
			allocPreds[b] = append(allocPreds[b], allocP{p.base, p.off})
		}
	}
	allocFloor[b] = fl
}

func (x *Ex) newCell(t types.Type, name string) *Cell {
	x.cellSeq++
	return &Cell{id: x.cellSeq, typ: t, name: name, born: x.cellSeq}
}

// forward moves a cell's content to the heap and returns its reference.
func (x *Ex) forward(st *State, c *Cell) *Term {
	if r, ok := st.fwd[c]; ok {
		return r
	}
	for _, rr := range x.recs {
		if c.born < rr.start {
			rr.fwds[c] = true
			rr.cells[c] = true
		}
	}
	r := x.newRef(st)
	v := st.cells[c]
	if at, ok := types.Unalias(c.typ).Underlying().(*types.Array); ok {
		h := elemHeap(at.Elem())
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, x.toTerm(st, v, c.typ)))
	} else {
		h := ptrHeap(c.typ)
		if m := memLookup(v); m != nil {
			memCells[r] = m
		}
		x.setHeapRef(st, h, r, Store(x.heap(st, h), r, x.toTerm(st, v, c.typ)))
	}
	nf := map[*Cell]*Term{}
	for k, v := range st.fwd {
		nf[k] = v
	}
	nf[c] = r
	st.fwd = nf
	return r
}

// toTerm turns an engine value into a term.
func (x *Ex) toTerm(st *State, v Val, t types.Type) *Term {
	switch v := v.(type) {
	case *Term:
		return v
	case *Addr:
		if len(v.path) != 0 {
			panic(unsupported("interior pointer used as a value (%s)", t))
		}
		if v.cell != nil {
			if v.cell.glob != nil {
				return x.globRef(v.cell.glob)
			}
			return x.forward(st, v.cell)
		}
		if v.idx != nil {
			panic(unsupported("pointer to slice element used as a value (%s)", t))
		}
		return v.ref
	case *Closure:
		return x.closureTerm(st, v)
	case *State:
		for k, s := range stateTab {
			if s == v {
				return k
			}
		}
		k := NamedConst("vc.Pre#"+itoa(len(stateTab)), sortOf(t))
		stateTab[k] = v
		return k
	case nil:
		panic(unsupported("no value of type %s", t))
	}
	panic(unsupported("value %T of type %s as a term", v, t))
}

// states remembered by vc.Pre, when they are stored as values
var stateTab = map[*Term]*State{}

var globRefs = map[*ssa.Global]*Term{}

func (x *Ex) globRef(g *ssa.Global) *Term {
	panic(unsupported("address of package variable %s used as a value", g))
}

var cloTab = map[string]*ssa.Function{}

func (x *Ex) closureTerm(st *State, c *Closure) *Term {
	if c.rec != nil {
		panic(unsupported("recursive spec function stored"))
	}
	name := "clo:" + c.fn.String()
	if c.bound != nil {
		panic(unsupported("bound method stored"))
	}
	cloTab[name] = c.fn
	var args []*Term
	for i, b := range c.binds {
		args = append(args, x.toTerm(st, b, c.fn.FreeVars[i].Type()))
	}
	t := UF(name, Int, args...)
	if len(t.free) == 0 {
		x.assumeRaw(Lt(IntLit(0), t))
	}
	return t
}

// asAddr interprets a pointer value.
func (x *Ex) asAddr(st *State, v Val, pt types.Type) *Addr {
	switch v := v.(type) {
	case *Addr:
		return v
	case *Term:
		el := types.Unalias(pt).Underlying().(*types.Pointer).Elem()
		if at, ok := types.Unalias(el).Underlying().(*types.Array); ok {
			_ = at
			return &Addr{heap: "ARR", ref: v, typ: el}
		}
		return &Addr{heap: ptrHeap(el), ref: v, typ: el}
	}
	panic(unsupported("address from %T", v))
}

func typeAtPath(t types.Type, path []pathStep) types.Type {
	for _, p := range path {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			t = u.Field(p.field).Type()
		case *types.Array:
			t = u.Elem()
		default:
			panic(unsupported("path into %s", t))
		}
	}
	return t
}

func getPath(v *Term, t types.Type, path []pathStep) *Term {
	for _, p := range path {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Struct:
			si := structOf(t)
			j, ok := si.idx[p.field]
			if !ok {
				panic(unsupported("unexported field of external struct %s", t))
			}
			v = Sel(si.dt, j, v)
			t = u.Field(p.field).Type()
		case *types.Array:
			v = Select(v, p.idx)
			t = u.Elem()
		default:
			panic(unsupported("path into %s", t))
		}
	}
	return v
}

func setPath(v *Term, t types.Type, path []pathStep, nv *Term) *Term {
	if len(path) == 0 {
		return nv
	}
	p := path[0]
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Struct:
		si := structOf(t)
		j, ok := si.idx[p.field]
		if !ok {
			panic(unsupported("unexported field of external struct %s", t))
		}
		return UpdDT(si.dt, v, j, setPath(Sel(si.dt, j, v), u.Field(p.field).Type(), path[1:], nv))
	case *types.Array:
		return Store(v, p.idx, setPath(Select(v, p.idx), u.Elem(), path[1:], nv))
	}
	panic(unsupported("path into %s", t))
}

// resolve the base location of an address in the state: forwarded cells become heap locations.
func (x *Ex) base(st *State, a *Addr) *Addr {
	if a.cell != nil {
		if r, ok := st.fwd[a.cell]; ok {
			if at, ok := types.Unalias(a.cell.typ).Underlying().(*types.Array); ok {
				if len(a.path) == 0 {
					return &Addr{heap: "ARR", ref: r, typ: a.typ}
				}
				return &Addr{heap: elemHeap(at.Elem()), ref: r, idx: a.path[0].idx, typ: at.Elem(), path: a.path[1:]}
			}
			return &Addr{heap: ptrHeap(a.cell.typ), ref: r, typ: a.cell.typ, path: a.path}
		}
		return a
	}
	if a.heap == "ARR" && len(a.path) > 0 {
		at := types.Unalias(a.typ).Underlying().(*types.Array)
		return &Addr{heap: elemHeap(at.Elem()), ref: a.ref, idx: a.path[0].idx, typ: at.Elem(), path: a.path[1:]}
	}
	return a
}

func (x *Ex) load(st *State, a *Addr) Val {
	a = x.base(st, a)
	if a.cell != nil {
		v, ok := st.cells[a.cell]
		if !ok {
			if a.cell.glob != nil {
				v = x.globalInit(st, a.cell)
				st.cells[a.cell] = v
			} else {
				panic(unsupported("load of dead cell %s", a.cell.name))
			}
		}
		if len(a.path) == 0 {
			return v
		}
		return getPath(x.toTerm(st, v, a.cell.typ), a.cell.typ, a.path)
	}
	if a.heap == "ARR" {
		at := types.Unalias(a.typ).Underlying().(*types.Array)
		return Select(x.heap(st, elemHeap(at.Elem())), a.ref)
	}
	h := x.heap(st, a.heap)
	v := Select(h, a.ref)
	if a.idx != nil {
		v = Select(v, a.idx)
	}
	r := getPath(v, a.typ, a.path)
	x.noteLoad(st, r, typeAtPath(a.typ, a.path), h, a.ref, a.idx, a.typ, a.path)
	return r
}

func (x *Ex) store(st *State, a *Addr, v Val) {
	a = x.base(st, a)
	if a.cell != nil {
		x.recordCell(a.cell)
		if len(a.path) == 0 {
			st.cells[a.cell] = v
			return
		}
		old, ok := st.cells[a.cell]
		if !ok && a.cell.glob != nil {
			old = x.globalInit(st, a.cell)
		}
		st.cells[a.cell] = setPath(x.toTerm(st, old, a.cell.typ), a.cell.typ, a.path, x.toTerm(st, v, typeAtPath(a.typ, a.path)))
		return
	}
	if a.heap == "ARR" {
		at := types.Unalias(a.typ).Underlying().(*types.Array)
		hn := elemHeap(at.Elem())
		x.setHeapRef(st, hn, a.ref, Store(x.heap(st, hn), a.ref, x.toTerm(st, v, a.typ)))
		return
	}
	tv := x.toTerm(st, v, typeAtPath(a.typ, a.path))
	h := x.heap(st, a.heap)
	old := Select(h, a.ref)
	if a.idx != nil {
		n := setPath(Select(old, a.idx), a.typ, a.path, tv)
		x.setHeapRef(st, a.heap, a.ref, Store(h, a.ref, Store(old, a.idx, n)))
		return
	}
	x.setHeapRef(st, a.heap, a.ref, Store(h, a.ref, setPath(old, a.typ, a.path, tv)))
}

// noteLoad assumes the type invariants of a loaded value.
func (x *Ex) noteLoad(st *State, v *Term, t types.Type, h, ref, idx *Term, bt types.Type, path []pathStep) {
	if !hasRefs(t) || isLit(v) {
		return
	}
	syms := map[*Term]bool{}
	var walk func(a *Term, d int)
	seen := map[*Term]bool{}
	walk = func(a *Term, d int) {
		if seen[a] {
			return
		}
		seen[a] = true
		switch a.op {
		case "store":
			walk(a.args[0], d)
		case "ite":
			walk(a.args[1], d)
			walk(a.args[2], d)
		default:
			if _, ok := symTab[a]; ok {
				syms[a] = true
			}
		}
	}
	walk(h, 0)
	var list []*Term
	for s := range syms {
		list = append(list, s)
	}
	sort.Slice(list, func(i, j int) bool { return list[i].id < list[j].id })
	for _, s := range list {
		b := Select(s, ref)
		if idx != nil {
			b = Select(b, idx)
		}
		if strHasMk(b.op) {
			continue
		}
		x.noteWf(b, bt, path, t, symTab[s].bound)
	}
	key := fmt.Sprintf("cur|%d|%d", v.id, st.alloc.term().id)
	if x.noted[key] {
		return
	}
	x.noted[key] = true
	for _, f := range wf(t, v, st.alloc.term()) {
		x.assumeWf(f, v)
	}
}

func strHasMk(op string) bool { return len(op) > 3 && op[:3] == "mk:" }

func (x *Ex) noteWf(b *Term, bt types.Type, path []pathStep, t types.Type, bound *Term) {
	v := getPath(b, bt, path)
	key := fmt.Sprintf("%d|%d", v.id, bound.id)
	if x.noted[key] {
		return
	}
	x.noted[key] = true
	for _, f := range wf(t, v, bound) {
		x.assumeWf(f, b)
	}
}

// assumeQ assumes a fact, closing it over free bound variables with pat as trigger.
func (x *Ex) assumeQ(f *Term, pat *Term) {
	if f == True {
		return
	}
	if len(f.free) == 0 {
		x.assumeRaw(f)
		return
	}
	for _, v := range f.free {
		found := false
		for _, w := range pat.free {
			found = found || v == w
		}
		if !found {
			return
		}
	}
	if pat.op == "select" || len(pat.op) > 3 && (pat.op[:3] == "uf:" || pat.op[:4] == "sel:") {
		x.assumeRaw(Forall(f.free, f, []*Term{pat}))
	}
}
