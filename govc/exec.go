package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Obl struct {
	name   string
	guard  *Term
	goal   *Term
	nAss   int // number of assumptions visible
	pos    string
	kind   string // ensures, safety, pre, frame, inv-init, inv-step
	cand   *candRef
	fn     string
	result *SolveResult
}

type candRef struct {
	loop string
	key  string
}

type Frame struct {
	fn      *ssa.Function
	env     map[ssa.Value]Val
	parent  *Frame
	depth   int
	defers  []deferred
	spec    bool // spec code: no safety obligations, reads only
	harness *Harness
	callPos string
	cs      string // call string
	target  bool   // frame belongs to code under verification (not the harness)
	loops   []*loopCtx
	info    *fnInfo
	ords    map[ordKey]int
	ordN    map[string]int
}

type deferred struct {
	call  *ssa.Defer
	args  []Val
	fnv   Val
	guard *Term
}

type Ex struct {
	eng      *Eng
	assumes  []*Term
	obls     []*Obl
	noted    map[string]bool
	ends     map[string][]*Term // literals looked for at the start and end of strings
	notedLog []string
	recs     []*recorder
	cellSeq  int
	alloc0   *Term
	initN    int64
	h        *Harness
	globals  map[*ssa.Global]*Cell
	// harness state
	mode          string // verify / use
	templates     []*template
	specDepth     int
	loopInv       map[string]map[string]bool // loop -> disabled candidate keys
	loopSeen      map[string][]string        // loop -> all candidate keys (for reporting)
	modCache      map[string]*modset
	muted         int
	useStack      []*useCtx
	stack         []*ssa.Function
	trusted       map[string]bool
	inlined       map[string]bool
	usedContr     map[string]bool
	oblSeq        map[string]int
	covers        []*Obl
	mods          []*modRegion
	entry         *State
	steps         int
	hint          map[string]map[string]bool
	narrowed      bool
	curFrame      *Frame
	bvs           []*Term
	topFrame      *Frame
	targetEntered bool
	inWf          bool
	nLoops        int
	weaves        []weave
	droppedAny    bool
	tag           string
	tags          map[int]string
}

func (x *Ex) assumeRaw(t *Term) {
	if t == True {
		return
	}
	if len(t.free) > 0 {
		t = Forall(t.free, t)
	}
	if t.op == "and" {
		for _, a := range t.args {
			x.addFact(a)
		}
		return
	}
	x.addFact(t)
}

func (x *Ex) addFact(t *Term) {
	if x.tag != "" {
		if x.tags == nil {
			x.tags = map[int]string{}
		}
		x.tags[len(x.assumes)] = x.tag
	}
	x.assumes = append(x.assumes, t)
	if x.inWf {
		if _, ok := wfFact[t]; !ok {
			wfFact[t] = true
		}
	} else {
		wfFact[t] = false
	}
}

// wfFact marks facts that only state type invariants of some term (used only where that term occurs).
var wfFact = map[*Term]bool{}

func (x *Ex) assumeWf(f, pat *Term) {
	x.inWf = true
	if len(f.free) > 0 {
		// the narrowest trigger: the term the fact is about
		for _, s := range subjects(f) {
			if len(s.free) == len(f.free) && (s.op == "select" || len(s.op) > 4 && s.op[:4] == "sel:") {
				pat = s
			}
		}
	}
	x.assumeQ(f, pat)
	x.inWf = false
}

func (x *Ex) assume(st *State, t *Term) { x.assumeRaw(Implies(st.guard, t)) }

func (x *Ex) oblige(st *State, kind, name string, goal *Term, fr *Frame, pos token.Pos) {
	if x.muted > 0 {
		return
	}
	if len(goal.free) > 0 || len(st.guard.free) > 0 {
		return
	}
	if Implies(st.guard, goal) == True {
		// trivially true obligations are counted as discharged by simplification
		x.addObl(&Obl{name: name, guard: st.guard, goal: True, nAss: len(x.assumes), kind: kind, pos: x.eng.pos(pos), fn: fnName(fr)})
		return
	}
	x.addObl(&Obl{name: name, guard: st.guard, goal: goal, nAss: len(x.assumes), kind: kind, pos: x.eng.pos(pos), fn: fnName(fr)})
}

func (x *Ex) addObl(o *Obl) { x.obls = append(x.obls, o) }

func fnName(fr *Frame) string {
	if fr == nil {
		return ""
	}
	return fr.fn.String()
}

type snapshot struct {
	na, no, nn, nc int
}

func (x *Ex) snap() snapshot {
	return snapshot{len(x.assumes), len(x.obls), len(x.notedLog), len(x.covers)}
}
func (x *Ex) rollback(s snapshot) {
	for i := s.na; i < len(x.assumes); i++ {
		delete(x.tags, i)
	}
	x.assumes = x.assumes[:s.na]
	x.obls = x.obls[:s.no]
	x.covers = x.covers[:s.nc]
	x.ends = nil
	x.noted = map[string]bool{} // re-emit type facts after a rollback
}

// ---- values

func (x *Ex) val(st *State, fr *Frame, v ssa.Value) Val {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		return &Closure{fn: v}
	case *ssa.Global:
		return &Addr{cell: x.globCell(v), typ: v.Type().(*types.Pointer).Elem()}
	case *ssa.Builtin:
		return v
	}
	if st.ov != nil {
		if r, ok := st.ov[envKey{fr, v}]; ok {
			return r
		}
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	panic(unsupported("undefined value %s in %s", v.Name(), fr.fn))
}

func (x *Ex) term(st *State, fr *Frame, v ssa.Value) *Term {
	return x.toTerm(st, x.val(st, fr, v), v.Type())
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	s := sortOf(c.Type())
	switch s {
	case Bool:
		return BoolLit(constant.BoolVal(c.Value))
	case Int:
		i, ok := constant.Int64Val(constant.ToInt(c.Value))
		if !ok {
			u, _ := constant.Uint64Val(constant.ToInt(c.Value))
			_ = u
			return NamedConst("bigconst:"+c.Value.ExactString(), Int)
		}
		return IntLit(i)
	case Str:
		return StrLit(constant.StringVal(c.Value))
	case Real:
		f, _ := constant.Float64Val(c.Value)
		return mkReal(fmt.Sprintf("%f", f))
	case Ifc:
		t := types.Default(c.Type())
		_ = t
	}
	panic(unsupported("constant %s of type %s", c, c.Type()))
}

func (x *Ex) globCell(g *ssa.Global) *Cell {
	if c, ok := x.globals[g]; ok {
		return c
	}
	c := &Cell{id: -len(x.globals) - 1, typ: g.Type().(*types.Pointer).Elem(), name: g.String(), ghost: true, glob: g}
	x.globals[g] = c
	return c
}

// ---- merging

func (x *Ex) mergeVals(st *State, t types.Type, gs []*Term, vs []Val) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(v, vs[0]) {
			same = false
		}
	}
	if same {
		return vs[0]
	}
	if tp, ok := vs[0].(Tuple); ok {
		out := make(Tuple, len(tp))
		for i := range tp {
			var sub []Val
			for _, v := range vs {
				sub = append(sub, v.(Tuple)[i])
			}
			var et types.Type
			if tt, ok := t.(*types.Tuple); ok {
				et = tt.At(i).Type()
			}
			out[i] = x.mergeVals(st, et, gs, sub)
		}
		return out
	}
	// addresses: same base & path shape may merge by conditional components
	if a0, ok := vs[0].(*Addr); ok {
		if m := x.mergeAddrs(st, gs, vs, a0); m != nil {
			return m
		}
	}
	r := x.toTerm(st, vs[len(vs)-1], t)
	for i := len(vs) - 2; i >= 0; i-- {
		r = Ite(gs[i], x.toTerm(st, vs[i], t), r)
	}
	return r
}

func (x *Ex) mergeAddrs(st *State, gs []*Term, vs []Val, a0 *Addr) Val {
	for _, v := range vs {
		a, ok := v.(*Addr)
		if !ok || a.cell != a0.cell || a.heap != a0.heap || len(a.path) != len(a0.path) || (a.idx == nil) != (a0.idx == nil) {
			return nil
		}
		for i := range a.path {
			if a.path[i].field != a0.path[i].field || (a.path[i].idx == nil) != (a0.path[i].idx == nil) {
				return nil
			}
		}
	}
	if a0.cell == nil && a0.idx == nil && len(a0.path) == 0 {
		return nil
	}
	m := &Addr{cell: a0.cell, heap: a0.heap, typ: a0.typ}
	ite := func(f func(a *Addr) *Term) *Term {
		r := f(vs[len(vs)-1].(*Addr))
		if r == nil {
			return nil
		}
		for i := len(vs) - 2; i >= 0; i-- {
			r = Ite(gs[i], f(vs[i].(*Addr)), r)
		}
		return r
	}
	m.ref = ite(func(a *Addr) *Term { return a.ref })
	m.idx = ite(func(a *Addr) *Term { return a.idx })
	for i := range a0.path {
		i := i
		m.path = append(m.path, pathStep{a0.path[i].field, ite(func(a *Addr) *Term { return a.path[i].idx })})
	}
	return m
}

func sameVal(a, b Val) bool {
	switch a := a.(type) {
	case *Term:
		b, ok := b.(*Term)
		return ok && a == b
	case *Addr:
		b, ok := b.(*Addr)
		if !ok || a.cell != b.cell || a.heap != b.heap || a.ref != b.ref || a.idx != b.idx || len(a.path) != len(b.path) {
			return false
		}
		for i := range a.path {
			if a.path[i] != b.path[i] {
				return false
			}
		}
		return true
	case *Closure:
		b, ok := b.(*Closure)
		if !ok || a.fn != b.fn || a.rec != b.rec || len(a.binds) != len(b.binds) {
			return false
		}
		if (a.bound == nil) != (b.bound == nil) || a.bound != nil && !sameVal(a.bound, b.bound) {
			return false
		}
		for i := range a.binds {
			if !sameVal(a.binds[i], b.binds[i]) {
				return false
			}
		}
		return true
	case Tuple:
		b, ok := b.(Tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case *Iter:
		return a == b
	case *State:
		return a == b
	case *ssa.Builtin:
		return a == b
	case nil:
		return b == nil
	}
	return false
}

// mergeStates joins states (with their guards); the result's guard is the disjunction.
func (x *Ex) mergeStates(ss []*State) *State {
	if len(ss) == 1 {
		return ss[0]
	}
	gs := make([]*Term, len(ss))
	for i, s := range ss {
		gs[i] = s.guard
	}
	// unify forwarding first
	fwd := map[*Cell]bool{}
	for _, s := range ss {
		for c := range s.fwd {
			fwd[c] = true
		}
	}
	n := &State{heaps: map[string]*Term{}, cells: map[*Cell]Val{}, fwd: map[*Cell]*Term{}, guard: Or(gs...)}
	if len(fwd) > 0 {
		var cs []*Cell
		for c := range fwd {
			cs = append(cs, c)
		}
		sortCells(cs)
		for _, c := range cs {
			for _, s := range ss {
				if _, alive := s.cells[c]; alive {
					if _, f := s.fwd[c]; !f {
						x.forward(s, c)
					}
				}
			}
		}
	}
	// any cell holding non-mergeable addresses/closures forces conversions (which may allocate) before heaps are merged
	cells := map[*Cell]bool{}
	for _, s := range ss {
		for c := range s.cells {
			cells[c] = true
		}
	}
	var cl []*Cell
	for c := range cells {
		cl = append(cl, c)
	}
	sortCells(cl)
	type pend struct {
		c  *Cell
		gs []*Term
		vs []Val
		ss []*State
	}
	var pends []pend
	for _, c := range cl {
		var g []*Term
		var vs []Val
		var sub []*State
		for i, s := range ss {
			v, ok := s.cells[c]
			if !ok {
				if c.glob != nil {
					v = x.globalInit(s, c)
					ok = true
				}
			}
			if ok {
				g = append(g, gs[i])
				vs = append(vs, v)
				sub = append(sub, s)
			}
		}
		same := true
		for _, v := range vs[1:] {
			same = same && sameVal(v, vs[0])
		}
		if same {
			n.cells[c] = vs[0]
			continue
		}
		for i, v := range vs {
			if _, isT := v.(*Term); !isT {
				if _, isA := v.(*Addr); isA && x.mergeAddrs(nil, g, vs, v.(*Addr)) != nil {
					continue
				}
				if _, isI := v.(*Iter); isI {
					continue
				}
				vs[i] = x.toTerm(sub[i], v, c.typ)
			}
		}
		pends = append(pends, pend{c, g, vs, sub})
	}
	for _, p := range pends {
		n.cells[p.c] = x.mergeVals(n, p.c.typ, p.gs, p.vs)
	}
	for c := range fwd {
		var g []*Term
		var vs []Val
		for i, s := range ss {
			if r, ok := s.fwd[c]; ok {
				g = append(g, gs[i])
				vs = append(vs, r)
			}
		}
		n.fwd[c] = x.mergeVals(n, types.Typ[types.Int], g, vs).(*Term)
	}
	// heaps
	hs := map[string]bool{}
	for _, s := range ss {
		for h := range s.heaps {
			hs[h] = true
		}
	}
	for h := range hs {
		r := x.heap(ss[len(ss)-1], h)
		for i := len(ss) - 2; i >= 0; i-- {
			r = Ite(gs[i], x.heap(ss[i], h), r)
		}
		n.heaps[h] = r
	}
	// allocation counter
	a := ss[0].alloc
	sameBase := true
	for _, s := range ss[1:] {
		if s.alloc.base != a.base {
			sameBase = false
		}
		if s.alloc.off > a.off {
			a.off = s.alloc.off
		}
	}
	if sameBase {
		n.alloc = a
	} else {
		b := Fresh("allocJ", Int)
		var ps []Alloc
		for _, s := range ss {
			ps = append(ps, s.alloc)
			x.assumeRaw(Le(s.alloc.term(), b))
		}
		x.setBasePred(b, ps...)
		n.alloc = Alloc{b, 0}
	}
	// overrides
	ovs := map[envKey]bool{}
	for _, s := range ss {
		for k := range s.ov {
			ovs[k] = true
		}
	}
	if len(ovs) > 0 {
		n.ov = map[envKey]Val{}
		for k := range ovs {
			var g []*Term
			var vs []Val
			for i, s := range ss {
				if v, ok := s.ov[k]; ok {
					g = append(g, gs[i])
					vs = append(vs, v)
				} else if v, ok := k.fr.env[k.v]; ok {
					_ = v
				}
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						delete(n.ov, k) // not mergeable: only matters if used, which then fails loudly
					}
				}()
				n.ov[k] = x.mergeVals(n, k.v.Type(), g, vs)
			}()
		}
	}
	return n
}

func sortCells(cs []*Cell) {
	for i := 1; i < len(cs); i++ {
		for j := i; j > 0 && cs[j].id < cs[j-1].id; j-- {
			cs[j], cs[j-1] = cs[j-1], cs[j]
		}
	}
}

// ---- control flow

type inc struct {
	pred *ssa.BasicBlock
	st   *State
}
type retv struct {
	st  *State
	val Val
}
type regionRes struct {
	backs []inc
	exits map[*ssa.BasicBlock][]inc
	rets  []retv
	// literal header condition seen?
	headLit bool
}

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	ord    int
}

type fnInfo struct {
	rpo   []*ssa.BasicBlock
	loops map[*ssa.BasicBlock]*loop
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	fi := &fnInfo{loops: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo = append(fi.rpo, post[i])
	}
	for _, b := range fi.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge
				l := fi.loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}, ord: len(fi.loops)}
					fi.loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					w := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[w] {
						continue
					}
					l.blocks[w] = true
					for _, p := range w.Preds {
						if seen[p] {
							work = append(work, p)
						}
					}
				}
			}
		}
	}
	fnInfos[fn] = fi
	return fi
}

func (x *Ex) evalPhis(fr *Frame, b *ssa.BasicBlock, ins []inc, st *State) []Val {
	var out []Val
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		var gs []*Term
		var vs []Val
		for _, i := range ins {
			for k, p := range b.Preds {
				if p == i.pred {
					gs = append(gs, i.st.guard)
					vs = append(vs, x.val(i.st, fr, phi.Edges[k]))
					break
				}
			}
		}
		out = append(out, Tuple{gs, vs})
	}
	return out
}

// join merges incoming edges into a block state and the phi values.
func (x *Ex) join(fr *Frame, b *ssa.BasicBlock, ins []inc) (*State, map[*ssa.Phi]Val) {
	phis := map[*ssa.Phi]Val{}
	type pv struct {
		phi *ssa.Phi
		gs  []*Term
		vs  []Val
	}
	var pvs []pv
	for _, in := range b.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		p := pv{phi: phi}
		for _, i := range ins {
			found := false
			for k, pr := range b.Preds {
				if pr == i.pred {
					p.gs = append(p.gs, i.st.guard)
					p.vs = append(p.vs, x.val(i.st, fr, phi.Edges[k]))
					found = true
					break
				}
			}
			if !found {
				panic("phi edge")
			}
		}
		// convert closures/addresses that differ to terms in their own states
		same := true
		for _, v := range p.vs[1:] {
			same = same && sameVal(v, p.vs[0])
		}
		if !same {
			a0, isA := p.vs[0].(*Addr)
			if !(isA && x.mergeAddrs(nil, p.gs, p.vs, a0) != nil) {
				for i, v := range p.vs {
					switch v.(type) {
					case *Addr, *Closure:
						p.vs[i] = x.toTerm(ins[i].st, v, phi.Type())
					}
				}
			}
		}
		pvs = append(pvs, p)
	}
	ss := make([]*State, len(ins))
	for i, in := range ins {
		ss[i] = in.st
	}
	st := x.mergeStates(ss)
	for _, p := range pvs {
		phis[p.phi] = x.mergeVals(st, p.phi.Type(), p.gs, p.vs)
	}
	return st, phis
}

func (x *Ex) setPhis(st *State, fr *Frame, phis map[*ssa.Phi]Val) {
	for p, v := range phis {
		fr.env[p] = v
		if st.ov != nil {
			delete(st.ov, envKey{fr, p})
		}
	}
}

// runRegion executes the blocks reachable from entry within region (nil: whole function).
func (x *Ex) runRegion(fr *Frame, region map[*ssa.BasicBlock]bool, entry *ssa.BasicBlock, st0 *State, isLoop bool) *regionRes {
	fi := fr.info
	res := &regionRes{exits: map[*ssa.BasicBlock][]inc{}}
	in := map[*ssa.BasicBlock][]inc{}
	done := map[*ssa.BasicBlock]bool{}
	push := func(from, to *ssa.BasicBlock, st *State) {
		if st.guard == False {
			return
		}
		if isLoop && to == entry {
			res.backs = append(res.backs, inc{from, st})
			return
		}
		if region != nil && !region[to] {
			res.exits[to] = append(res.exits[to], inc{from, st})
			return
		}
		if done[to] {
			panic(unsupported("irreducible control flow in %s", fr.fn))
		}
		in[to] = append(in[to], inc{from, st})
	}
	for _, b := range fi.rpo {
		if region != nil && !region[b] || done[b] {
			continue
		}
		var st *State
		if b == entry {
			st = st0
			done[b] = true
		} else {
			ins := in[b]
			if len(ins) == 0 {
				continue
			}
			if l, ok := fi.loops[b]; ok {
				for lb := range l.blocks {
					done[lb] = true
				}
				st, phis := x.join(fr, b, ins)
				if st.guard == False {
					continue
				}
				lr := x.runLoop(fr, l, st, phis)
				for _, es := range orderedExits(fi, lr.exits) {
					for _, e := range es.incs {
						push(e.pred, es.to, e.st)
					}
				}
				res.rets = append(res.rets, lr.rets...)
				continue
			}
			var phis map[*ssa.Phi]Val
			st, phis = x.join(fr, b, ins)
			x.setPhis(st, fr, phis)
			done[b] = true
		}
		if st.guard == False {
			continue
		}
		// entry of the whole function may itself be a loop header
		if b == entry && !isLoop {
			if l, ok := fi.loops[b]; ok {
				for lb := range l.blocks {
					done[lb] = true
				}
				lr := x.runLoop(fr, l, st, nil)
				for _, es := range orderedExits(fi, lr.exits) {
					for _, e := range es.incs {
						push(e.pred, es.to, e.st)
					}
				}
				res.rets = append(res.rets, lr.rets...)
				continue
			}
		}
		st = st.clone()
		x.execBlock(fr, b, st, push, res, isLoop && b == entry)
	}
	return res
}

type exitList struct {
	to   *ssa.BasicBlock
	incs []inc
}

func orderedExits(fi *fnInfo, m map[*ssa.BasicBlock][]inc) []exitList {
	var out []exitList
	for _, b := range fi.rpo {
		if es, ok := m[b]; ok {
			out = append(out, exitList{b, es})
		}
	}
	return out
}

func (x *Ex) execBlock(fr *Frame, b *ssa.BasicBlock, st *State, push func(f, t *ssa.BasicBlock, st *State), res *regionRes, head bool) {
	prev := x.curFrame
	x.curFrame = fr
	defer func() { x.curFrame = prev }()
	for _, ins := range b.Instrs {
		x.steps++
		if x.steps > 4000000 {
			panic(unsupported("symbolic execution budget exceeded"))
		}
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.If:
			c := x.term(st, fr, i.Cond)
			if head && isLit(c) {
				res.headLit = true
			}
			g := st.guard
			if c != False {
				s1 := st
				if c != True {
					s1 = st.clone()
				}
				s1.guard = And(g, c)
				push(b, b.Succs[0], s1)
			}
			if c != True {
				s2 := st
				if c != False {
					s2 = st.clone()
				}
				s2.guard = And(g, Not(c))
				push(b, b.Succs[1], s2)
			}
			return
		case *ssa.Jump:
			push(b, b.Succs[0], st)
			return
		case *ssa.Return:
			var v Val
			switch len(i.Results) {
			case 0:
			case 1:
				v = x.val(st, fr, i.Results[0])
			default:
				tp := Tuple{}
				for _, r := range i.Results {
					tp = append(tp, x.val(st, fr, r))
				}
				v = tp
			}
			res.rets = append(res.rets, retv{st, v})
			return
		case *ssa.Panic:
			if !fr.spec && x.safety(fr) {
				x.oblige(st, "safety", "no-panic", False, fr, i.Pos())
			}
			return
		default:
			x.instr(fr, st, ins)
			if st.guard == False {
				return
			}
		}
	}
}

func (x *Ex) safety(fr *Frame) bool {
	return x.specDepth == 0 && !fr.spec && fr.target && !x.h.nosafety && len(x.useStack) == 0
}

func (x *Ex) checkNil(st *State, fr *Frame, r *Term, pos token.Pos) {
	c := Not(Eq(r, IntLit(0)))
	if c == True {
		return
	}
	if x.safety(fr) {
		x.oblige(st, "safety", "nil-deref", c, fr, pos)
	}
	if x.specDepth == 0 {
		st.guard = And(st.guard, c)
	}
}

func (x *Ex) checkCond(st *State, fr *Frame, name string, c *Term, pos token.Pos) {
	if c == True {
		return
	}
	if x.safety(fr) {
		x.oblige(st, "safety", name, c, fr, pos)
	}
	if x.specDepth == 0 {
		st.guard = And(st.guard, c)
	}
}

// call executes fn's body.
func (x *Ex) call(parent *Frame, st *State, fn *ssa.Function, args []Val, binds []Val, cs string, spec bool) (Val, *State) {
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", fn))
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		panic(unsupported("inlining depth exceeded at %s", fn))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Val{}, parent: parent, depth: depth, cs: cs, spec: spec || (parent != nil && parent.spec), info: infoOf(fn)}
	if parent != nil {
		fr.target = isRepoFn(fn) && !x.eng.isContractFn(fn)
		if fr.target && parent != nil && x.specDepth == 0 && len(x.useStack) == 0 {
			x.inlined[fn.String()] = true
		}
	}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		fr.env[f] = binds[i]
	}
	g0 := st.guard
	res := x.runRegion(fr, nil, fn.Blocks[0], st, false)
	if len(res.rets) == 0 {
		s := st.clone()
		s.guard = False
		return nil, s
	}
	if len(res.rets) == 1 {
		return res.rets[0].val, res.rets[0].st
	}
	// convert differing closures / cell addresses in results before merging
	for i := range res.rets {
		res.rets[i].val = x.normRet(res.rets[i].st, res.rets[i].val, fn.Signature.Results(), res.rets, i)
	}
	var ss []*State
	var gs []*Term
	var vs []Val
	for _, r := range res.rets {
		ss = append(ss, r.st)
		gs = append(gs, r.st.guard)
		vs = append(vs, r.val)
	}
	n := x.mergeStates(ss)
	var rt types.Type = fn.Signature.Results()
	if fn.Signature.Results().Len() == 1 {
		rt = fn.Signature.Results().At(0).Type()
	}
	var v Val
	if vs[0] != nil {
		v = x.mergeVals(n, rt, gs, vs)
	}
	_ = g0
	return v, n
}

func (x *Ex) normRet(st *State, v Val, rt *types.Tuple, all []retv, self int) Val {
	conv := func(v Val, t types.Type, get func(Val) Val) Val {
		same := true
		for _, o := range all {
			if !sameVal(get(o.val), v) {
				same = false
			}
		}
		if same {
			return v
		}
		switch v.(type) {
		case *Addr, *Closure:
			return x.toTerm(st, v, t)
		}
		return v
	}
	if tp, ok := v.(Tuple); ok {
		out := make(Tuple, len(tp))
		for i := range tp {
			i := i
			out[i] = conv(tp[i], rt.At(i).Type(), func(o Val) Val { return o.(Tuple)[i] })
		}
		return out
	}
	if v == nil || rt.Len() == 0 {
		return v
	}
	return conv(v, rt.At(0).Type(), func(o Val) Val { return o })
}

func isRepoFn(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.Pkg != nil && isRepo(fn.Pkg.Pkg) && fn.Pkg.Pkg.Path() != vcPath
}

var debug = os.Getenv("GOVC_DEBUG") != ""

func dbg(f string, a ...any) {
	if debug {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
	}
}

func shortFn(fn *ssa.Function) string {
	s := fn.String()
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}
