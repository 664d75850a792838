package main

import (
	"fmt"
	"go/token"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func resetRun(alloc0 *Term, floor int64) {
	freshCount = 0
	belowBound = map[*Term]*Term{}
	symTab = map[*Term]symInfo{}
	allocFloor = map[*Term]int64{alloc0: floor}
	allocPreds = map[*Term][]allocP{}
	for t := range knownSelect {
		if !strings.HasPrefix(t.sval, "H0|") {
			delete(knownSelect, t)
		}
	}
}

// execute runs a harness symbolically.
func (e *Eng) execute(h *Harness, disabled map[string]map[string]bool, hint map[string]map[string]bool) (x *Ex, err error) {
	x = e.newEx(h)
	x.loopInv = disabled
	x.hint = hint
	x.alloc0 = NamedConst("alloc0", Int)
	resetRun(x.alloc0, e.initN)
	x.assumeRaw(Le(IntLit(e.initN), x.alloc0))
	st := &State{heaps: map[string]*Term{}, cells: map[*Cell]Val{}, fwd: map[*Cell]*Term{}, alloc: Alloc{x.alloc0, 0}, guard: True}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupportedErr); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			panic(r)
		}
	}()
	args := make([]Val, len(h.fn.Params))
	for i, p := range h.fn.Params {
		v := NamedConst("p:"+h.name+":"+p.Name(), sortOf(p.Type()))
		args[i] = v
		for _, f := range wf(p.Type(), v, x.alloc0) {
			x.assumeWf(f, f)
		}
	}
	x.stack = append(x.stack, h.fn)
	x.topFrame = &Frame{fn: h.fn, env: map[ssa.Value]Val{}, info: infoOf(h.fn), cs: h.name}
	x.curFrame = x.topFrame
	_, fin := x.call(nil, st, h.fn, args, nil, h.name, false)
	x.covers = append(x.covers, &Obl{name: "cover:end", guard: fin.guard, goal: False, nAss: len(x.assumes), kind: "cover"})
	if h.target != nil && !h.noframe && x.entry != nil {
		x.frameObls(fin)
	}
	// de-duplicate names
	seq := map[string]int{}
	for _, o := range x.obls {
		if o.cand != nil {
			continue
		}
		nm := o.name
		if o.kind == "safety" {
			nm = "safe:" + shortName(o.fn) + ":" + o.name
		}
		if o.kind == "pre" {
			nm = "pre:" + o.name
		}
		seq[nm]++
		if seq[nm] > 1 {
			nm = fmt.Sprintf("%s#%d", nm, seq[nm])
		}
		o.name = h.name + "/" + nm
	}
	return x, nil
}

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 {
		s = s[i+1:]
	}
	return s
}

func (x *Ex) frameObls(fin *State) {
	var hs []string
	for h := range fin.heaps {
		hs = append(hs, h)
	}
	sort.Strings(hs)
	a0 := x.entry.alloc.term()
	for _, h := range hs {
		now, was := fin.heaps[h], x.heap(x.entry, h)
		if now == was {
			continue
		}
		// writes only at references allocated since are fine without any proof
		r := Fresh("frame", Int)
		belowBound[r] = a0
		now2 := peel(now, r)
		if now2 == was {
			continue
		}
		f := frameFact(h, now, was, x.mods, a0, r)
		x.oblige(fin, "frame", "frame:"+h, f, x.topFrame, token.NoPos)
	}
	for c, v := range fin.cells {
		if c.glob == nil {
			continue
		}
		if x.eng.isGhostGlobal(c.glob) {
			continue
		}
		was, ok := x.entry.cells[c]
		if !ok {
			was = x.globalInit(x.entry, c)
		}
		if !sameVal(v, was) {
			x.oblige(fin, "frame", "frame:"+c.glob.Name(), Eq(x.toTerm(fin, v, c.typ), x.toTerm(x.entry, was, c.typ)), x.topFrame, token.NoPos)
		}
	}
}

func peel(h, r *Term) *Term {
	for h.op == "store" && distinctTerms(h.args[1], r) {
		h = h.args[0]
	}
	return h
}

func (e *Eng) isGhostGlobal(g *ssa.Global) bool {
	return strings.HasPrefix(g.Name(), "zz") || strings.HasPrefix(g.Name(), "ZZ")
}

var solveCache = map[string]SolveResult{}
var solveMu sync.Mutex

func (x *Ex) facts(o *Obl) []*Term { return x.factsFor(o, false) }

// factsFor collects the facts visible to an obligation; lean leaves out the invariant candidates made from other templates.
func (x *Ex) factsFor(o *Obl, lean bool) []*Term {
	var fs []*Term
	seen := map[*Term]bool{}
	mine, tmpl := "", ""
	if lean {
		mine = o.cand.loop + "/" + o.cand.key
		tmpl = strings.SplitN(o.cand.key, ",", 2)[0]
	}
	for ai, a := range x.assumes[:o.nAss] {
		if lean {
			if tg := x.tags[ai]; tg != "" && tg != mine {
				i := strings.LastIndex(tg, "/t")
				if i >= 0 && len(tg) > i+2 && tg[i+2] >= '0' && tg[i+2] <= '9' {
					if tg[:i] == o.cand.loop || strings.SplitN(tg[i+1:], ",", 2)[0] != tmpl {
						continue
					}
				}
			}
		}
		if !seen[a] {
			seen[a] = true
			fs = append(fs, a)
		}
	}
	for _, c := range conj(o.guard) {
		if c != True && !seen[c] {
			seen[c] = true
			fs = append(fs, c)
		}
	}
	if n := Not(o.goal); n != True {
		fs = append(fs, n)
	}
	return relevant(tables(fs))
}

// tables adds the contents of the package-level tables that the facts read after a loop or a call.
func tables(fs []*Term) []*Term {
	type at struct {
		s *Sort
		i int64
	}
	seen, read := map[*Term]bool{}, map[at]bool{}
	var base []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].op == "int" && t.args[1].ival > 0 {
			read[at{t.args[0].sort, t.args[1].ival}] = true
		}
		if t.op == "const" && knownSelect[t] != nil {
			base = append(base, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, f := range fs {
		walk(f)
	}
	if len(read) == 0 {
		return fs
	}
	sort.Slice(base, func(i, j int) bool { return base[i].sval < base[j].sval })
	for _, h := range base {
		var is []int64
		for i := range knownSelect[h] {
			if read[at{h.sort, i}] {
				is = append(is, i)
			}
		}
		sort.Slice(is, func(i, j int) bool { return is[i] < is[j] })
		for _, i := range is {
			fs = append(fs, mk("=", Bool, mk("select", h.sort.elem, h, IntLit(i)), knownSelect[h][i]))
		}
	}
	return fs
}

// relevant drops the type-invariant facts about terms that occur nowhere else (dropping facts is always sound).
func relevant(fs []*Term) []*Term {
	occ := map[*Term]bool{}
	ops := map[string]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if occ[t] {
			return
		}
		occ[t] = true
		ops[t.op] = true
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, f := range fs {
		if !wfFact[f] {
			walk(f)
		}
	}
	var out []*Term
	for _, f := range fs {
		if wfFact[f] {
			ok := true
			for _, s := range subjects(f) {
				ok = ok && occurs(s, occ, ops)
			}
			if !ok {
				continue
			}
		}
		out = append(out, f)
	}
	return out
}

func occurs(t *Term, occ map[*Term]bool, ops map[string]bool) bool {
	if len(t.free) == 0 {
		return occ[t]
	}
	if t.op == "bvar" {
		return true
	}
	if !ops[t.op] {
		return false
	}
	for _, a := range t.args {
		if a.op != "int" && a.op != "str" && !occurs(a, occ, ops) {
			return false
		}
	}
	return true
}

var subjMemo = map[*Term][]*Term{}

func subjects(f *Term) []*Term {
	if s, ok := subjMemo[f]; ok {
		return s
	}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.op {
		case "and", "or", "=>", "not", "=", "<=", "<", "forall", "+", "-", "*":
			for _, a := range t.args {
				walk(a)
			}
		case "int", "true", "false", "str", "bvar":
		case "const":
			if !strings.HasPrefix(t.sval, "alloc") {
				out = append(out, t)
			}
		default:
			if strings.HasPrefix(t.op, "sel:Slice:") {
				t = t.args[0]
			}
			out = append(out, t)
		}
	}
	walk(f)
	subjMemo[f] = out
	return out
}

func (x *Ex) solveAll(obls []*Obl, names []string, timeout float64) {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	for _, o := range obls {
		if o.goal == True || Implies(o.guard, o.goal) == True {
			o.result = &SolveResult{status: "unsat", backend: "simplifier"}
			continue
		}
		fs := x.facts(o)
		var lean []*Term
		if o.cand != nil && len(x.tags) > 0 {
			lean = x.factsFor(o, true)
			if len(lean) == len(fs) {
				lean = nil
			}
		}
		var kb strings.Builder
		for _, f := range fs {
			fmt.Fprintf(&kb, "%d,", f.id)
		}
		k := kb.String() + strings.Join(names, "+")
		solveMu.Lock()
		r, ok := solveCache[k]
		solveMu.Unlock()
		if ok && (r.status == "unsat" || r.status == "sat") {
			rr := r
			rr.secs = 0
			o.result = &rr
			continue
		}
		wg.Add(1)
		lim <- struct{}{}
		go func(o *Obl) {
			defer wg.Done()
			defer func() { <-lim }()
			var r SolveResult
			if lean != nil {
				r = Solve(lean, names, timeout)
			}
			if r.status != "unsat" {
				s := r.secs
				r = Solve(fs, names, timeout)
				if lean == nil || r.status == "unsat" {
					r.secs += s
				}
			}
			solveMu.Lock()
			solveCache[k] = r
			solveMu.Unlock()
			o.result = &r
		}(o)
	}
	wg.Wait()
}

type oblRes struct {
	Name    string  `json:"name"`
	Kind    string  `json:"kind"`
	Status  string  `json:"status"`
	Backend string  `json:"backend"`
	Secs    float64 `json:"secs"`
	Pos     string  `json:"pos,omitempty"`
	Output  string  `json:"output,omitempty"`
}

type hRes struct {
	h         *Harness
	ok        bool
	err       string
	obls      []oblRes
	failed    []oblRes
	invs      int
	passes    int
	secs      float64
	solver    float64
	trusted   map[string]bool
	inlined   map[string]bool
	used      map[string]bool
	survivors map[string]map[string]bool
	vacuous   string
	hintFail  bool
	found     string
}

func (h *Harness) backs() []string {
	if len(h.solvers) > 0 {
		return h.solvers
	}
	return []string{"z3", "z3nombqi", "z3rel", "cvc5"}
}

func (e *Eng) verify(h *Harness, hint map[string]map[string]bool) *hRes {
	t0 := time.Now()
	r := &hRes{h: h}
	defer func() { r.secs = time.Since(t0).Seconds() }()
	if h.lemma == false && h.target == nil {
		r.err = "target " + h.targetName + " not found in the tree"
		return r
	}
	disabled := map[string]map[string]bool{}
	scale := 1.0
	if tier == "thorough" {
		scale = 4
	}
	for pass := 0; ; pass++ {
		r.passes = pass + 1
		if pass > 60 {
			r.err = "invariant search does not settle"
			return r
		}
		if time.Since(t0).Seconds() > 560*scale {
			r.err = "time budget for this contract exhausted"
			return r
		}
		tx := time.Now()
		x, err := e.execute(h, disabled, hint)
		if err != nil {
			r.err = "outside the supported subset: " + err.Error()
			return r
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "[%s] pass %d: %d obligations, %d assumptions, exec %.2fs\n", h.name, pass, len(x.obls), len(x.assumes), time.Since(tx).Seconds())
		}
		if os.Getenv("GOVC_STATS") != "" {
			n := map[string]int{}
			wf := 0
			for i, f := range x.assumes {
				n[x.tags[i]]++
				if wfFact[f] {
					wf++
				}
			}
			for k, v := range n {
				fmt.Fprintf(os.Stderr, "STAT %5d %s\n", v, k)
			}
			fmt.Fprintf(os.Stderr, "STAT wf %d\n", wf)
		}
		r.trusted, r.inlined, r.used = x.trusted, x.inlined, x.usedContr
		var cands, mains []*Obl
		for _, o := range x.obls {
			if o.cand != nil && (forceCand == nil || !forceCand.MatchString(o.cand.loop+"/"+o.cand.key)) {
				cands = append(cands, o)
			} else {
				mains = append(mains, o)
			}
		}
		ct := 1.5
		if hint != nil {
			ct = 8
		}
		cb := []string{"z3nombqi", "z3rel"}
		if len(h.solvers) > 0 {
			cb = h.solvers
			ct *= 2
		}
		x.solveAll(cands, cb, ct*scale)
		dropped := 0
		// candidates that are refuted (or on which the solver gives up at once) go first; those that only ran out of time get another chance
		// with the others gone
		for _, slow := range []bool{false, true} {
			if dropped > 0 {
				break
			}
			for _, o := range cands {
				r.solver += o.result.secs
				if o.result.status == "unsat" || !slow && o.result.secs > ct*scale*0.8 {
					continue
				}
				if disabled[o.cand.loop] == nil {
					disabled[o.cand.loop] = map[string]bool{}
				}
				if !disabled[o.cand.loop][o.cand.key] {
					disabled[o.cand.loop][o.cand.key] = true
					dropped++
					if debug {
						dbg("drop %s (%s) %s", o.name, o.kind, o.result.status)
					}
				}
			}
		}
		if verbose {
			fmt.Fprintf(os.Stderr, "[%s] pass %d: %d candidate obligations, dropped %d (%.1fs)\n", h.name, pass, len(cands), dropped, time.Since(tx).Seconds())
		}
		if dropped > 0 {
			continue
		}
		mt := h.timeout
		if hint != nil && mt > 10 && x.nLoops > 0 {
			mt = 10
		}
		x.solveAll(mains, h.backs(), mt*scale)
		for _, o := range mains {
			if hint != nil && x.nLoops > 0 {
				break
			}
			if o.result.status != "unsat" && o.result.status != "sat" {
				// second chance, alone, with all back ends
				x.solveAll([]*Obl{o}, append([]string{"z3old"}, h.backs()...), 2*h.timeout*scale)
			}
		}
		var failed []oblRes
		var all []oblRes
		r.solver = 0
		r.invs = 0
		surv := map[string]map[string]bool{}
		for _, o := range cands {
			if debug && strings.HasPrefix(o.cand.key, "t") {
				dbg("kept %s", o.name)
			}
			if surv[o.cand.loop] == nil {
				surv[o.cand.loop] = map[string]bool{}
			}
			surv[o.cand.loop][o.cand.key] = true
		}
		for _, o := range x.obls {
			or := oblRes{Name: o.name, Kind: o.kind, Status: o.result.status, Backend: o.result.backend, Secs: o.result.secs, Pos: o.pos}
			r.solver += o.result.secs
			if o.cand != nil {
				r.invs++
				or.Name = h.name + "/inv:" + o.name
			}
			if o.result.status != "unsat" {
				or.Output = o.result.output
				failed = append(failed, or)
			}
			all = append(all, or)
		}
		r.obls, r.failed, r.survivors = all, failed, surv
		if len(failed) > 0 {
			if hint != nil && len(cands) == 0 && !x.droppedAny && len(disabled) == 0 && x.nLoops == 0 {
				// no loop to find an invariant for
				return r
			}
			if hint != nil {
				r.hintFail = true
			} else if x.narrowed && !h.wide && time.Since(t0).Seconds() < 250*scale {
				h.wide = true
				disabled = map[string]map[string]bool{}
				continue
			}
			return r
		}
		// vacuity
		n := 0
		for _, o := range mains {
			if o.kind == "ensures" {
				n++
			}
		}
		if n == 0 && !h.trusted {
			r.vacuous = "no ensures obligation generated"
			return r
		}
		for _, c := range x.covers {
			res := Solve(x.facts(c), []string{"z3nombqi"}, 3)
			if res.status == "unsat" {
				r.vacuous = c.name + " is unreachable (assumptions contradictory)"
				return r
			}
		}
		r.ok = true
		return r
	}
}

// eagerDrop checks the invariant candidates of a loop as soon as its body has been executed, so that candidates that do not hold are out
// before anything is built on them; it reports whether any was dropped. (Those that stay are checked again with everything else.)
func (x *Ex) eagerDrop(key string, from int, initOK map[string]bool) bool {
	var init, step []*Obl
	for _, o := range x.obls[from:] {
		if o.cand == nil || o.cand.loop != key || o.result != nil {
			continue
		}
		if forceCand != nil && forceCand.MatchString(o.cand.loop+"/"+o.cand.key) {
			continue
		}
		if o.kind == "inv-init" {
			if !initOK[o.cand.key] {
				init = append(init, o)
			}
		} else {
			step = append(step, o)
		}
	}
	cb, ct := []string{"z3nombqi", "z3rel"}, 1.5
	if len(x.h.solvers) > 0 {
		cb, ct = x.h.solvers, 3
	}
	bad := false
	drop := func(o *Obl) {
		if x.loopInv[key] == nil {
			x.loopInv[key] = map[string]bool{}
		}
		if !x.loopInv[key][o.cand.key] {
			x.loopInv[key][o.cand.key] = true
			bad = true
			if debug {
				dbg("drop %s (%s) %s, at once", o.name, o.kind, o.result.status)
			}
		}
	}
	for i, os := range [][]*Obl{init, step} {
		x.solveAll(os, cb, ct)
		var slow []*Obl
		for _, o := range os {
			switch {
			case o.result.status == "unsat":
				if i == 0 {
					initOK[o.cand.key] = true
				}
			case o.result.status != "sat" && o.result.secs > ct*0.8 && strings.HasPrefix(o.cand.key, "t"):
				slow = append(slow, o)
			default:
				drop(o)
			}
		}
		if !bad && len(slow) > 0 {
			// those that ran out of time get another chance with the others gone
			x.solveAll(slow, cb, 2*ct)
			for _, o := range slow {
				if o.result.status != "unsat" {
					drop(o)
				} else if i == 0 {
					initOK[o.cand.key] = true
				}
			}
		}
		if bad {
			return true
		}
	}
	return false
}
