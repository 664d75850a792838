package main

import (
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopCtx struct {
	fr   *Frame
	l    *loop
	key  string
	phis []*ssa.Phi
	vals []Val
}

type modset struct {
	heaps map[string]bool
	cells map[string]bool
	phis  map[int]bool // header phis with engine-level initial values that vary
	alloc bool
	whole map[string]bool // heaps that a callee may change anywhere
}

type cand struct {
	key  string
	eval func(st *State, pv []Val) *Term
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

func (x *Ex) runLoop(fr *Frame, l *loop, st *State, phis map[*ssa.Phi]Val) *regionRes {
	hp := headerPhis(l.header)
	vals := make([]Val, len(hp))
	for i, p := range hp {
		v, ok := phis[p]
		if !ok {
			panic(unsupported("loop at function entry in %s", fr.fn))
		}
		vals[i] = v
	}
	key := fr.cs + "/" + shortFn(fr.fn) + "#" + itoa(l.ord)
	if r := x.tryUnroll(fr, l, st, hp, vals); r != nil {
		return r
	}
	return x.cutLoop(fr, l, st, hp, vals, key)
}

func liveOut(l *loop) []ssa.Value {
	var out []ssa.Value
	for b := range l.blocks {
		for _, in := range b.Instrs {
			v, ok := in.(ssa.Value)
			if !ok || v.Referrers() == nil {
				continue
			}
			for _, r := range *v.Referrers() {
				if r.Block() != nil && !l.blocks[r.Block()] {
					out = append(out, v)
					break
				}
			}
		}
	}
	return out
}

func (x *Ex) tryUnroll(fr *Frame, l *loop, st *State, hp []*ssa.Phi, vals []Val) *regionRes {
	if _, ok := l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If); !ok {
		return nil
	}
	if !x.headLit(fr, l, st, hp, vals) {
		return nil
	}
	sn := x.snap()
	nd := len(fr.defers)
	out := &regionRes{exits: map[*ssa.BasicBlock][]inc{}}
	lo := liveOut(l)
	cur := st
	for n := 0; ; n++ {
		if n > 300 {
			panic(unsupported("loop unrolling limit in %s", fr.fn))
		}
		if n > 0 && !x.headLit(fr, l, cur, hp, vals) {
			x.rollback(sn)
			fr.defers = fr.defers[:nd]
			return nil
		}
		cur = cur.clone()
		pm := map[*ssa.Phi]Val{}
		for i, p := range hp {
			pm[p] = vals[i]
		}
		x.setPhis(cur, fr, pm)
		r := x.runRegion(fr, l.blocks, l.header, cur, true)
		for to, es := range r.exits {
			for _, e := range es {
				ov := map[envKey]Val{}
				for k, v := range e.st.ov {
					ov[k] = v
				}
				for _, v := range lo {
					k := envKey{fr, v}
					if _, have := ov[k]; have {
						continue
					}
					if ev, ok := fr.env[v]; ok {
						ov[k] = ev
					}
				}
				e.st.ov = ov
				out.exits[to] = append(out.exits[to], e)
			}
		}
		out.rets = append(out.rets, r.rets...)
		if len(r.backs) == 0 {
			return out
		}
		ns, nph := x.join(fr, l.header, r.backs)
		cur = ns
		for i, p := range hp {
			vals[i] = nph[p]
		}
		if cur.guard == False {
			return out
		}
	}
}

// headLit evaluates the loop condition in the given state and reports whether it is literal.
func (x *Ex) headLit(fr *Frame, l *loop, st *State, hp []*ssa.Phi, vals []Val) bool {
	m := x.evalHeader(fr, l, st, hp, vals)
	if m == nil {
		return false
	}
	c, ok := m[l.header.Instrs[len(l.header.Instrs)-1].(*ssa.If).Cond]
	if !ok {
		return false
	}
	t, ok := c.(*Term)
	return ok && isLit(t)
}

// evalHeader evaluates the header block's pure instructions without side effects on the run; nil when it has others.
func (x *Ex) evalHeader(fr *Frame, l *loop, st *State, hp []*ssa.Phi, vals []Val) (res map[ssa.Value]Val) {
	for _, in := range l.header.Instrs {
		switch i := in.(type) {
		case *ssa.Phi, *ssa.DebugRef, *ssa.BinOp, *ssa.FieldAddr, *ssa.Field, *ssa.IndexAddr, *ssa.If, *ssa.Jump, *ssa.Extract, *ssa.Lookup:
		case *ssa.UnOp:
		case *ssa.Next:
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" && b.Name() != "cap" {
				return nil
			}
		default:
			return nil
		}
	}
	for _, in := range l.header.Instrs {
		if _, ok := in.(*ssa.Next); ok {
			return nil
		}
	}
	s := st.clone()
	saved := map[ssa.Value]Val{}
	savedOv := map[ssa.Value]Val{}
	for _, in := range l.header.Instrs {
		if v, ok := in.(ssa.Value); ok {
			if e, have := fr.env[v]; have {
				saved[v] = e
			}
			if s.ov != nil {
				delete(s.ov, envKey{fr, v})
			}
		}
	}
	_ = savedOv
	defer func() {
		for _, in := range l.header.Instrs {
			if v, ok := in.(ssa.Value); ok {
				if e, have := saved[v]; have {
					fr.env[v] = e
				} else {
					delete(fr.env, v)
				}
			}
		}
		if r := recover(); r != nil {
			if _, ok := r.(unsupportedErr); ok {
				res = nil
				return
			}
			panic(r)
		}
	}()
	x.muted++
	defer func() { x.muted-- }()
	for i, p := range hp {
		fr.env[p] = vals[i]
	}
	for _, in := range l.header.Instrs {
		switch in.(type) {
		case *ssa.Phi, *ssa.If, *ssa.Jump, *ssa.DebugRef:
		default:
			x.instr(fr, s, in)
		}
	}
	res = map[ssa.Value]Val{}
	for _, in := range l.header.Instrs {
		if v, ok := in.(ssa.Value); ok {
			res[v] = fr.env[v]
		}
	}
	return res
}

func cellKey(c *Cell) string { return c.name }

func constsIn(t *Term, m map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == "const" {
		m[t] = true
	}
	for _, a := range t.args {
		constsIn(a, m, seen)
	}
}

func bornAfter(t *Term, mark int) bool {
	m := map[*Term]bool{}
	constsIn(t, m, map[*Term]bool{})
	for c := range m {
		if i := strings.LastIndexByte(c.sval, '!'); i >= 0 {
			n, err := strconv.Atoi(c.sval[i+1:])
			if err == nil && n > mark {
				return true
			}
		}
	}
	return false
}

func (x *Ex) cutLoop(fr *Frame, l *loop, st0 *State, hp []*ssa.Phi, vals []Val, key string) *regionRes {
	ms := x.modCache[key]
	if ms == nil {
		ms = &modset{whole: map[string]bool{}, heaps: map[string]bool{}, cells: map[string]bool{}, phis: map[int]bool{}}
		x.modCache[key] = ms
	}
	mark := freshCount
	var refs map[string]map[*Term]bool
	haveRefs := false
	initOK := map[string]bool{}
	drops := 0
	for round := 0; ; round++ {
		if round-drops > 20 {
			panic(unsupported("loop modification analysis does not settle in %s", fr.fn))
		}
		sn := x.snap()
		nd := len(fr.defers)
		dry := !haveRefs
		if x.muted > 0 {
			dry = false
		}
		rec := newRecorder(x.cellSeq + 1)
		if dry {
			x.muted++
		}
		res, changed, ok := x.cutOnce(fr, l, st0, hp, vals, key, ms, refs, mark, rec)
		if dry {
			x.muted--
		}
		if ok && !changed && !dry {
			if x.muted > 0 || x.hint != nil || drops > 40 || !x.eagerDrop(key, sn.no, initOK) {
				return res
			}
			drops++
		}
		x.rollback(sn)
		fr.defers = fr.defers[:nd]
		if ok && !changed {
			haveRefs = true
			refs = rec.refs
		}
	}
}

func (x *Ex) cutOnce(fr *Frame, l *loop, st0 *State, hp []*ssa.Phi, vals0 []Val, key string, ms *modset, refs map[string]map[*Term]bool, mark int, rec *recorder) (*regionRes, bool, bool) {
	x.nLoops++
	st := st0.clone()
	vals := append([]Val{}, vals0...)
	// engine-level values that vary become terms
	for i, p := range hp {
		if ms.phis[i] {
			vals[i] = x.toTerm(st, vals[i], p.Type())
		}
	}
	var cs []*Cell
	for c := range st.cells {
		if ms.cells[cellKey(c)] {
			cs = append(cs, c)
		}
	}
	sortCells(cs)
	for _, c := range cs {
		if ms.cells["fwd:"+cellKey(c)] {
			if _, f := st.fwd[c]; !f {
				x.forward(st, c)
			}
		}
	}
	var hs []string
	for h := range ms.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	var mcells []*Cell
	for _, c := range cs {
		if _, f := st.fwd[c]; f {
			continue
		}
		if c.typ != nil {
			v, _ := st.cells[c]
			if v == nil && c.glob != nil {
				v = x.globalInit(st, c)
			}
			st.cells[c] = x.toTerm(st, v, c.typ)
		}
		mcells = append(mcells, c)
	}
	// globals modified but not yet touched
	entry := st.clone()
	entryVals := append([]Val{}, vals...)

	// havoc
	varying := map[int]bool{}
	if ms.alloc {
		x.bumpAllocLoop(st)
	}
	for _, h := range hs {
		x.recordHeap(h)
		x.heap(st, h)
		st.heaps[h] = x.freshHeap(st, h, "L")
	}
	for _, c := range mcells {
		x.recordCell(c)
		if c.typ == nil {
			st.cells[c] = x.fresh("visited", c.vsort)
		} else {
			st.cells[c] = x.freshOf(st, "c:"+c.name, c.typ)
		}
	}
	for i, p := range hp {
		if _, isT := vals[i].(*Term); isT || ms.phis[i] {
			vals[i] = x.freshOf(st, "phi:"+p.Comment, p.Type())
			varying[i] = true
		}
	}
	lc := &loopCtx{fr: fr, l: l, key: key, phis: hp, vals: vals}
	var cands []cand
	if x.muted == 0 {
		cands = x.candidates(fr, l, key, entry, entryVals, st, vals, hp, hs, mcells, refs, mark, ms)
	}
	evalAll := func(s *State, pv []Val, kind string, g *Term) {
		for _, c := range cands {
			t := x.evalCand(c, s, pv)
			if t == nil {
				continue
			}
			if kind == "" {
				x.tag = key + "/" + c.key
				x.assumeRaw(Implies(g, t))
				x.tag = ""
				continue
			}
			if Implies(g, t) == True {
				continue
			}
			x.addObl(&Obl{name: key + "/" + c.key, guard: g, goal: t, nAss: len(x.assumes), kind: kind, cand: &candRef{key, c.key}, fn: fr.fn.String()})
		}
	}
	x.specDepth++
	if len(cands) > 0 {
		evalAll(entry, entryVals, "inv-init", entry.guard)
		evalAll(st, vals, "", st.guard)
	}
	x.specDepth--

	pm := map[*ssa.Phi]Val{}
	for i, p := range hp {
		pm[p] = vals[i]
	}
	x.setPhis(st, fr, pm)
	fr.loops = append(fr.loops, lc)
	x.recs = append(x.recs, rec)
	body := st.clone()
	res := x.runRegion(fr, l.blocks, l.header, body, true)
	x.recs = x.recs[:len(x.recs)-1]
	fr.loops = fr.loops[:len(fr.loops)-1]

	changed := false
	for h := range rec.heaps {
		if !ms.heaps[h] {
			ms.heaps[h] = true
			changed = true
		}
	}
	for h := range rec.whole {
		ms.whole[h] = true
	}
	for c := range rec.cells {
		if !ms.cells[cellKey(c)] {
			ms.cells[cellKey(c)] = true
			changed = true
		}
	}
	for c := range rec.fwds {
		if !ms.cells["fwd:"+cellKey(c)] {
			ms.cells["fwd:"+cellKey(c)] = true
			changed = true
		}
	}
	if rec.alloc && !ms.alloc {
		ms.alloc = true
		changed = true
	}
	if changed {
		return nil, true, true
	}
	if len(res.backs) > 0 {
		// engine-level phis must not vary
		for i, p := range hp {
			if varying[i] {
				continue
			}
			for _, b := range res.backs {
				for k, pr := range l.header.Preds {
					if pr == b.pred {
						if v := x.val(b.st, fr, p.Edges[k]); !sameVal(v, vals[i]) {
							ms.phis[i] = true
							changed = true
						}
					}
				}
			}
		}
		if changed {
			return nil, true, true
		}
		bs, bph := x.join(fr, l.header, res.backs)
		if bs.guard != False && len(cands) > 0 {
			bv := make([]Val, len(hp))
			for i, p := range hp {
				bv[i] = bph[p]
			}
			x.specDepth++
			evalAll(bs, bv, "inv-step", bs.guard)
			x.specDepth--
		}
		if ms.alloc {
			// nothing: the allocation base of the header bounds every iteration
		}
	}
	// keep the header's values for uses after the loop
	x.setPhisEnvOnly(fr, pm)
	return res, false, true
}

func (x *Ex) setPhisEnvOnly(fr *Frame, pm map[*ssa.Phi]Val) {}

func (x *Ex) bumpAllocLoop(st *State) { x.bumpAlloc(st, "L") }

func (x *Ex) evalCand(c cand, st *State, pv []Val) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				dbg("candidate %s: %s", c.key, u.msg)
				t = nil
				return
			}
			panic(r)
		}
	}()
	return c.eval(st, pv)
}

// ---- candidate invariants

func asTerm(v Val) *Term {
	t, _ := v.(*Term)
	return t
}

func (x *Ex) candidates(fr *Frame, l *loop, key string, entry *State, ev []Val, st *State, hv []Val, hp []*ssa.Phi, hs []string, mcells []*Cell, refs map[string]map[*Term]bool, mark int, ms *modset) []cand {
	var all []cand
	add := func(k string, f func(s *State, pv []Val) *Term) { all = append(all, cand{k, f}) }
	a0 := entry.alloc.term()
	mkF := func(vars []*Term, body *Term, pats ...[]*Term) *Term { return Forall(vars, body, pats...) }

	// integers
	type ival struct {
		name string
		get  func(s *State, pv []Val) *Term
		typ  types.Type
	}
	var ints, slices []ival
	for i, p := range hp {
		i := i
		e := asTerm(ev[i])
		if e == nil {
			continue
		}
		switch {
		case e.sort == Int && isIntType(p.Type()):
			ints = append(ints, ival{"p" + itoa(i), func(s *State, pv []Val) *Term { return pv[i].(*Term) }, p.Type()})
		case isPtrType(p.Type()) && e.sort == Int:
			add("pt-old:p"+itoa(i), func(s *State, pv []Val) *Term { return Lt(pv[i].(*Term), a0) })
			add("pt-entry:p"+itoa(i), func(s *State, pv []Val) *Term { return Lt(pv[i].(*Term), x.alloc0) })
			add("pt-nonnil:p"+itoa(i), func(s *State, pv []Val) *Term { return Not(Eq(pv[i].(*Term), IntLit(0))) })
		case e.sort == SliceS:
			slices = append(slices, ival{"p" + itoa(i), func(s *State, pv []Val) *Term { return pv[i].(*Term) }, p.Type()})
		}
	}
	for n, c := range mcells {
		c := c
		if c.glob != nil && x.eng.isGhostGlobal(c.glob) {
			continue // ghost state is for the contract's own invariants
		}
		if c.typ == nil {
			continue
		}
		switch {
		case isIntType(c.typ):
			ints = append(ints, ival{"c" + itoa(n), func(s *State, pv []Val) *Term { return s.cells[c].(*Term) }, c.typ})
		case sortOf(c.typ) == SliceS:
			slices = append(slices, ival{"c" + itoa(n), func(s *State, pv []Val) *Term { return s.cells[c].(*Term) }, c.typ})
		}
	}
	for _, p := range ints {
		p := p
		i0 := p.get(entry, ev)
		add("lo:"+p.name, func(s *State, pv []Val) *Term { return Le(i0, p.get(s, pv)) })
		add("hi:"+p.name, func(s *State, pv []Val) *Term { return Le(p.get(s, pv), i0) })
	}
	for i, p := range ints {
		for _, q := range ints[i+1:] {
			p, q := p, q
			p0, q0 := p.get(entry, ev), q.get(entry, ev)
			add("step:"+p.name+":"+q.name, func(s *State, pv []Val) *Term { return Eq(Sub(p.get(s, pv), p0), Sub(q.get(s, pv), q0)) })
			add("stepsum:"+p.name+":"+q.name, func(s *State, pv []Val) *Term { return Eq(Add(p.get(s, pv), q.get(s, pv)), Add(p0, q0)) })
		}
	}
	// comparisons in the header bound the counters
	var cmps []*ssa.BinOp
	for _, in := range l.header.Instrs {
		if b, ok := in.(*ssa.BinOp); ok && (b.Op == token.LSS || b.Op == token.LEQ || b.Op == token.GTR || b.Op == token.GEQ || b.Op == token.NEQ) && isIntType(b.X.Type()) {
			cmps = append(cmps, b)
		}
	}
	for bi, b := range cmps {
		b := b
		for side, opd := range []ssa.Value{b.Y, b.X} {
			opd := opd
			for _, p := range ints {
				p := p
				bound := func(s *State, pv []Val) *Term {
					if in, ok := opd.(ssa.Instruction); ok && l.blocks[in.Block()] {
						m := x.evalHeader(fr, l, s, hp, pv)
						if m == nil {
							return nil
						}
						return asTerm(m[opd])
					}
					return asTerm(x.val(s, fr, opd))
				}
				for d := int64(-1); d <= 1; d++ {
					d := d
					nm := "cmp" + itoa(bi) + "." + itoa(side) + ":" + p.name + ":" + itoa(int(d))
					add(nm, func(s *State, pv []Val) *Term {
						t := bound(s, pv)
						if t == nil {
							return nil
						}
						return Le(Add(p.get(s, pv), IntLit(d)), t)
					})
				}
				break
			}
		}
	}
	// slices
	for _, p := range slices {
		p := p
		s0 := p.get(entry, ev)
		add("sl-fresh:"+p.name, func(s *State, pv []Val) *Term {
			v := p.get(s, pv)
			return Or(Eq(SRef(v), SRef(s0)), Le(a0, SRef(v)))
		})
		add("sl-freshonly:"+p.name, func(s *State, pv []Val) *Term {
			v := p.get(s, pv)
			return Or(Eq(SLen(v), IntLit(0)), Le(a0, SRef(v)))
		})
		add("sl-grow:"+p.name, func(s *State, pv []Val) *Term { return Le(SLen(s0), SLen(p.get(s, pv))) })
		add("sl-cap:"+p.name, func(s *State, pv []Val) *Term {
			v := p.get(s, pv)
			return Implies(Eq(SRef(v), SRef(s0)), Eq(SCap(v), SCap(s0)))
		})
		add("sl-nonnil:"+p.name, func(s *State, pv []Val) *Term { return Not(Eq(SRef(p.get(s, pv)), IntLit(0))) })
		et := elemOf(p.typ)
		h := elemHeap(et)
		add("sl-prefix:"+p.name, func(s *State, pv []Val) *Term {
			v := p.get(s, pv)
			iv := BVar("i", Int)
			now := Select(x.heap(s, h), SRef(v))
			was := Select(x.heap(entry, h), SRef(s0))
			return mkF([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, SLen(s0))), Eq(Select(now, iv), Select(was, iv))))
		})
		for _, q := range ints {
			q := q
			q0 := q.get(entry, ev)
			add("sl-count:"+p.name+":"+q.name, func(s *State, pv []Val) *Term {
				return Eq(Sub(SLen(p.get(s, pv)), SLen(s0)), Sub(q.get(s, pv), q0))
			})
			add("sl-atmost:"+p.name+":"+q.name, func(s *State, pv []Val) *Term {
				return Le(Sub(SLen(p.get(s, pv)), SLen(s0)), Sub(q.get(s, pv), q0))
			})
		}
	}
	for i, p := range slices {
		for _, q := range slices[i+1:] {
			p, q := p, q
			add("sl-sep:"+p.name+":"+q.name, func(s *State, pv []Val) *Term {
				a, b := p.get(s, pv), q.get(s, pv)
				return Or(Not(Eq(SRef(a), SRef(b))), Eq(SRef(a), IntLit(0)))
			})
		}
	}
	// visited sets
	type vset struct {
		c    *Cell
		iter *Iter
	}
	var vsets []vset
	for _, v := range fr.env {
		if it, ok := v.(*Iter); ok && it.isMap {
			for _, c := range mcells {
				if c == it.visited {
					vsets = append(vsets, vset{c, it})
				}
			}
		}
	}
	for n, v := range vsets {
		v := v
		add("vis-dom:"+itoa(n), func(s *State, pv []Val) *Term {
			k := BVar("k", v.c.vsort.key)
			vis := s.cells[v.c].(*Term)
			return mkF([]*Term{k}, Implies(Select(vis, k), Select(v.iter.dom0, k)))
		})
	}
	// heaps
	for _, h := range hs {
		h := h
		hi := heapTab[h]
		h0 := x.heap(entry, h)
		if ms.whole[h] {
			continue // a callee may change all of it
		}
		add("fr-all:"+h, func(s *State, pv []Val) *Term {
			r := BVar("r", Int)
			now := x.heap(s, h)
			return mkF([]*Term{r}, Implies(And(Le(IntLit(0), r), Lt(r, a0)), Eq(Select(now, r), Select(h0, r))), []*Term{mk("select", hi.sort.elem, now, r)})
		})
		var W []*Term
		wset := map[*Term]bool{}
		addW := func(t *Term) {
			if t == nil || t == IntLit(0) || wset[t] {
				return
			}
			wset[t] = true
			W = append(W, t)
		}
		for r := range refs[h] {
			if !bornAfter(r, mark) && len(r.free) == 0 {
				if r.op == "ite" {
					addW(r.args[1])
					addW(r.args[2])
				} else {
					addW(r)
				}
			}
		}
		if hi.kind == 'E' {
			for _, p := range slices {
				if elemHeap(elemOf(p.typ)) == h {
					addW(SRef(p.get(entry, ev)))
				}
			}
		}
		sort.Slice(W, func(i, j int) bool { return W[i].id < W[j].id })
		if len(W) == 0 {
			continue
		}
		if len(W) > 8 {
			W = W[:8]
		}
		add("fr-others:"+h, func(s *State, pv []Val) *Term {
			r := BVar("r", Int)
			now := x.heap(s, h)
			c := []*Term{Le(IntLit(0), r), Lt(r, a0)}
			for _, w := range W {
				c = append(c, Not(Eq(r, w)))
			}
			return mkF([]*Term{r}, Implies(And(c...), Eq(Select(now, r), Select(h0, r))), []*Term{mk("select", hi.sort.elem, now, r)})
		})
		for wi, w := range W {
			w := w
			nm := h + ":" + itoa(wi)
			switch hi.kind {
			case 'P':
				x.fieldCands(nm, hi.typ, add, func(s *State) *Term { return Select(x.heap(s, h), w) }, Select(h0, w), nil)
			case 'E':
				for _, p := range slices {
					if elemHeap(elemOf(p.typ)) == h && SRef(p.get(entry, ev)) == w {
						s0 := p.get(entry, ev)
						add("fr-prefix:"+nm, func(s *State, pv []Val) *Term {
							iv := BVar("i", Int)
							return mkF([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, SLen(s0))), Eq(Select(Select(x.heap(s, h), w), iv), Select(Select(h0, w), iv))))
						})
					}
				}
				for _, q := range ints {
					q := q
					for d := int64(0); d <= 1; d++ {
						d := d
						add("fr-after:"+nm+":"+q.name+":"+itoa(int(d)), func(s *State, pv []Val) *Term {
							iv := BVar("i", Int)
							return mkF([]*Term{iv}, Implies(Le(Add(q.get(s, pv), IntLit(d)), iv), Eq(Select(Select(x.heap(s, h), w), iv), Select(Select(h0, w), iv))))
						})
					}
				}
				iv := BVar("i", Int)
				x.fieldCands(nm, hi.typ, add, func(s *State) *Term { return Select(Select(x.heap(s, h), w), iv) }, Select(Select(h0, w), iv), []*Term{iv})
			case 'D', 'L':
				add("fr-same:"+nm, func(s *State, pv []Val) *Term { return Eq(Select(x.heap(s, h), w), Select(h0, w)) })
				if hi.kind == 'D' {
					add("fr-superset:"+nm, func(s *State, pv []Val) *Term {
						k := BVar("k", hi.sort.elem.key)
						return mkF([]*Term{k}, Implies(Select(Select(h0, w), k), Select(Select(x.heap(s, h), w), k)))
					})
				}
			case 'V':
				for vn, v := range vsets {
					v := v
					if v.c.vsort.key != hi.sort.elem.key {
						continue
					}
					add("fr-unvisited:"+nm+":"+itoa(vn), func(s *State, pv []Val) *Term {
						k := BVar("k", v.c.vsort.key)
						return mkF([]*Term{k}, Implies(Not(Select(s.cells[v.c].(*Term), k)), Eq(Select(Select(x.heap(s, h), w), k), Select(Select(h0, w), k))))
					})
				}
			}
		}
	}
	// cells of struct type: untouched fields
	for n, c := range mcells {
		c := c
		if c.typ == nil {
			continue
		}
		if _, ok := types.Unalias(c.typ).Underlying().(*types.Struct); ok {
			x.fieldCands("cell"+itoa(n), c.typ, add, func(s *State) *Term { return s.cells[c].(*Term) }, entry.cells[c].(*Term), nil)
		}
	}
	// templates
	all = append(all, x.templateCands(fr, l, entry, st, hv, hp, mcells)...)

	// filter
	var out []cand
	dis := x.loopInv[key]
	for _, c := range all {
		if x.hint != nil {
			if !x.hint[key][c.key] {
				continue
			}
		}
		if dis[c.key] {
			continue
		}
		if onlyCand != nil && strings.HasPrefix(c.key, "t") && !onlyCand.MatchString(key+"/"+c.key) {
			continue
		}
		out = append(out, c)
	}
	return out
}

func isPtrType(t types.Type) bool {
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

func isIntType(t types.Type) bool {
	b, ok := types.Unalias(t).Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

// fieldCands: field j is unchanged.
func (x *Ex) fieldCands(nm string, t types.Type, add func(string, func(*State, []Val) *Term), now func(s *State) *Term, was *Term, vars []*Term) {
	st, ok := types.Unalias(t).Underlying().(*types.Struct)
	if !ok {
		return
	}
	si := structOf(t)
	for i := 0; i < st.NumFields(); i++ {
		j, ok := si.idx[i]
		if !ok {
			continue
		}
		j2 := j
		add("fr-field:"+nm+"."+st.Field(i).Name(), func(s *State, pv []Val) *Term {
			b := Eq(Sel(si.dt, j2, now(s)), Sel(si.dt, j2, was))
			if len(vars) > 0 {
				return Forall(vars, b)
			}
			return b
		})
	}
}

// ---- templates

type template struct {
	n    int
	name string
	clo  *Closure
}

type hole struct {
	key  string
	vary bool
	get  func(s *State, pv []Val) Val
	name string // of the variable, where there is one
}

func (x *Ex) templateCands(fr *Frame, l *loop, entry, st *State, hv []Val, hp []*ssa.Phi, mcells []*Cell) []cand {
	var out []cand
	for _, tp := range x.templates {
		tp := tp
		sig := tp.clo.fn.Signature
		holes := make([][]hole, sig.Params().Len())
		for i := range holes {
			// a parameter called v_x stands for something the loop changes, f_x for something it does not, e_x for the state on entry to it
			nm := sig.Params().At(i).Name()
			if strings.HasPrefix(nm, "e_") {
				if pt := sig.Params().At(i).Type(); strings.HasSuffix(pt.String(), "zzvc.Mem") {
					k := NamedConst("vc.Pre#"+itoa(len(stateTab)), sortOf(pt))
					stateTab[k] = entry
					holes[i] = []hole{{"entry", true, func(s *State, pv []Val) Val { return k }, ""}}
				}
				continue
			}
			hs := x.holes(fr, l, st, hv, hp, mcells, sig.Params().At(i).Type())
			all := hs
			for _, h := range hs {
				if strings.HasPrefix(nm, "v_") && !h.vary || strings.HasPrefix(nm, "f_") && h.vary {
					continue
				}
				holes[i] = append(holes[i], h)
			}
			// x names the variable meant, when the code has one of that name (all others are tried when that does not work)
			if !x.h.wide && len(nm) > 2 && nm[1] == '_' {
				var named []hole
				for _, h := range holes[i] {
					if h.name == nm[2:] {
						named = append(named, h)
					}
				}
				other := false
				for _, h := range all {
					other = other || h.name == nm[2:]
				}
				if (len(named) > 0 || other) && len(named) < len(holes[i]) {
					holes[i] = named
					x.narrowed = true
				}
			}
		}
		sel := make([]hole, len(holes))
		count := 0
		var rec func(i int)
		rec = func(i int) {
			if count > 160 {
				return
			}
			if i == len(holes) {
				if len(holes) > 0 {
					vary := true
					for i, h := range sel {
						vary = vary && strings.HasPrefix(sig.Params().At(i).Name(), "f_")
						_ = h
					}
					for _, h := range sel {
						vary = vary || h.vary
					}
					if !vary {
						return
					}
				}
				count++
				k := "t" + itoa(tp.n)
				hs := append([]hole{}, sel...)
				for _, h := range hs {
					k += "," + h.key
				}
				out = append(out, cand{k, func(s *State, pv []Val) *Term {
					args := make([]Val, len(hs))
					for j, h := range hs {
						args[j] = h.get(s, pv)
						if args[j] == nil {
							return nil
						}
					}
					r, ok := x.specCall(s, tp.clo, args).(*Term)
					if !ok {
						return nil
					}
					return r
				}})
				return
			}
			for _, h := range holes[i] {
				dup := false
				for j := 0; j < i; j++ {
					if sel[j].key == h.key {
						dup = true
					}
				}
				if dup {
					continue
				}
				sel[i] = h
				rec(i + 1)
			}
		}
		rec(0)
	}
	return out
}

func (x *Ex) holes(fr *Frame, l *loop, st *State, hv []Val, hp []*ssa.Phi, mcells []*Cell, t types.Type) []hole {
	var out []hole
	if sig, ok := types.Unalias(t).Underlying().(*types.Signature); ok && sig.Params().Len() == 1 && sig.Results().Len() == 1 {
		// visited set
		ks := sortOf(sig.Params().At(0).Type())
		n := 0
		for _, c := range mcells {
			c := c
			if c.typ == nil && c.vsort.key == ks {
				out = append(out, hole{"vis" + itoa(n), true, func(s *State, pv []Val) Val {
					vis := s.cells[c].(*Term)
					return &Closure{pred: func(a []Val) Val { return Select(vis, a[0].(*Term)) }}
				}, ""})
				n++
			}
		}
		// sets being iterated by enclosing loops are fixed within this one
		n = 0
		for f := fr; f != nil; f = f.parent {
			for _, lc := range f.loops {
				for _, v := range itersOf(f, lc.l) {
					c := v.visited
					if c.vsort.key == ks {
						out = append(out, hole{"ovis" + itoa(n), false, func(s *State, pv []Val) Val {
							vis, ok := s.cells[c].(*Term)
							if !ok {
								return nil
							}
							return &Closure{pred: func(a []Val) Val { return Select(vis, a[0].(*Term)) }}
						}, ""})
						n++
					}
				}
			}
		}
		return out
	}
	same := func(u types.Type) (r bool) {
		defer func() {
			if recover() != nil { // the iterator type of x/tools/go/ssa is no real type
				r = false
			}
		}()
		return types.Identical(types.Unalias(u), types.Unalias(t))
	}
	for i, p := range hp {
		i := i
		if !same(p.Type()) {
			continue
		}
		if asTerm(hv[i]) == nil {
			continue
		}
		out = append(out, hole{"p" + itoa(i), true, func(s *State, pv []Val) Val { return asTerm2(pv[i]) }, p.Comment})
		if isIntType(t) {
			out = append(out, hole{"p" + itoa(i) + "+1", true, func(s *State, pv []Val) Val {
				if q := asTerm(pv[i]); q != nil {
					return Add(q, IntLit(1))
				}
				return nil
			}, ""})
		}
	}
	for n, c := range mcells {
		c := c
		if c.typ == nil || !same(c.typ) {
			continue
		}
		out = append(out, hole{"c" + itoa(n), true, func(s *State, pv []Val) Val { return asTerm2(s.cells[c]) }, c.name})
	}
	have := map[*Term]bool{}
	dup := func(t *Term) bool {
		if have[t] {
			return true
		}
		have[t] = true
		return false
	}
	for _, tp := range x.templates {
		for _, b := range tp.clo.binds {
			if bt, ok := b.(*Term); ok {
				have[bt] = true
			}
		}
	}
	// variables this loop does not change
	nu := 0
	for f := fr; f != nil && nu < 6; f = f.parent {
		for _, b := range f.info.rpo {
			for _, in := range b.Instrs {
				al, ok := in.(*ssa.Alloc)
				if !ok || nu >= 6 || !same(al.Type().Underlying().(*types.Pointer).Elem()) {
					continue
				}
				a, ok := f.env[al].(*Addr)
				if !ok || a.cell == nil || len(a.path) != 0 || f == fr && l.blocks[b] {
					continue
				}
				c := a.cell
				mod := false
				for _, m := range mcells {
					mod = mod || m == c
				}
				if mod {
					continue
				}
				if cv := asTerm(st.cells[c]); cv == nil || dup(cv) {
					continue
				}
				out = append(out, hole{"u" + itoa(nu), false, func(s *State, pv []Val) Val { return asTerm2(s.cells[c]) }, al.Comment})
				nu++
			}
		}
	}
	// phis of enclosing loops, and values computed before this loop in their bodies
	n := 0
	for f := fr; f != nil && n < 12; f = f.parent {
		for li := len(f.loops) - 1; li >= 0; li-- {
			lc := f.loops[li]
			for i, p := range lc.phis {
				if !same(p.Type()) {
					continue
				}
				v := asTerm(lc.vals[i])
				if v == nil || dup(v) {
					continue
				}
				out = append(out, hole{"o" + itoa(n), false, func(s *State, pv []Val) Val { return v }, p.Comment})
				if isIntType(t) {
					out = append(out, hole{"o" + itoa(n) + "+1", false, func(s *State, pv []Val) Val { return Add(v, IntLit(1)) }, ""})
				}
				n++
			}
		}
		if !isIntType(t) {
			for _, b := range f.info.rpo {
				for _, in := range b.Instrs {
					v, ok := in.(ssa.Value)
					if !ok || !same(v.Type()) || n >= 12 {
						continue
					}
					if _, isPhi := in.(*ssa.Phi); isPhi && f == fr && b == l.header {
						continue
					}
					if f == fr && l.blocks[b] {
						continue
					}
					if tv := asTerm(f.env[v]); tv != nil && !isLit(tv) && !dup(tv) {
						out = append(out, hole{"e" + itoa(n), false, func(s *State, pv []Val) Val { return tv }, ""})
						n++
					}
				}
			}
			for _, pa := range f.fn.Params {
				if same(pa.Type()) && n < 12 {
					if tv := asTerm(f.env[pa]); tv != nil && !isLit(tv) && !dup(tv) {
						out = append(out, hole{"a" + itoa(n), false, func(s *State, pv []Val) Val { return tv }, ""})
						n++
					}
				}
			}
		}
	}
	return out
}

func asTerm2(v Val) Val {
	if t, ok := v.(*Term); ok {
		return t
	}
	return nil
}

func itersOf(f *Frame, l *loop) []*Iter {
	var out []*Iter
	for b := range l.blocks {
		for _, in := range b.Instrs {
			if nx, ok := in.(*ssa.Next); ok {
				if it, ok := f.env[nx.Iter].(*Iter); ok && it.isMap {
					out = append(out, it)
				}
			}
		}
	}
	return out
}

var onlyCand = envRe("GOVC_ONLY")
var forceCand = envRe("GOVC_FORCE")

func envRe(n string) *regexp.Regexp {
	if v := os.Getenv(n); v != "" {
		return regexp.MustCompile(v)
	}
	return nil
}
