package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Harness struct {
	name       string
	fn         *ssa.Function
	pkg        string
	target     *ssa.Function
	targetName string
	props      []string
	nosafety   bool
	noframe    bool
	standalone bool // checked on its own, not used at call sites
	inline     []string
	solvers    []string
	timeout    float64
	wide       bool // try every variable for the named parameters of invariant templates
	noreplay   bool
	lemma      bool
	useOnly    []string
	file       string
	trusted    bool
	opts       map[string]string
}

func (h *Harness) short() string { return h.name }

type Eng struct {
	prog         *ssa.Program
	pkgs         map[string]*ssa.Package
	tpk          map[string]*packages.Package
	fset         *token.FileSet
	harnesses    []*Harness
	models       map[string][]*ssa.Function
	opaques      map[string][]*ssa.Function
	boxTypes     map[string]types.Type
	byTarget     map[*ssa.Function]*Harness
	contrFile    map[*ssa.Function]bool
	constGlob    map[*ssa.Global]Val
	globWrite    map[*ssa.Global]bool
	tableWritten map[*ssa.Global]bool // what it holds may change after initialisation
	initN        int64
	writesMem    map[*ssa.Function]*writeSet
	repo         string
	cdir         string
}

func (e *Eng) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := e.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(e.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (e *Eng) typeOfBox(ctor string) (types.Type, bool) {
	if b, ok := boxByCtor[ctor]; ok && b.typ != nil {
		return b.typ, true
	}
	return nil, false
}

func (e *Eng) model(key string, h *Harness) *ssa.Function {
	ms := e.models[key]
	if len(ms) == 0 {
		return nil
	}
	for _, m := range ms {
		if h != nil && m.Pkg.Pkg.Path() == h.pkg {
			return m
		}
	}
	if strings.Contains(key, modPath) {
		return nil // the repository's own functions are replaced only where the contract's package says so
	}
	return ms[0]
}

func (e *Eng) opaqueModel(t types.Type, h *Harness) *ssa.Function {
	for _, k := range []string{tkey(t), tkey(types.Unalias(t).Underlying())} {
		ms := e.opaques[k]
		for _, m := range ms {
			if h != nil && m.Pkg.Pkg.Path() == h.pkg {
				return m
			}
		}
		if len(ms) > 0 {
			return ms[0]
		}
	}
	return nil
}

func (e *Eng) contractFor(f *ssa.Function) *Harness { return e.byTarget[f] }

func (e *Eng) inlineFor(h *Harness, f *ssa.Function) bool {
	for _, n := range h.inline {
		if n == f.Name() || n == "*" && h.target != f {
			return true
		}
	}
	return false
}
func (e *Eng) unrollable(f *ssa.Function) bool { return e.contrFile[f] }

func (e *Eng) isContractFn(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if o := f.Origin(); o != nil {
		f = o
	}
	return e.contrFile[f]
}

// overlay maps contract files into the repository's package directories.
func overlayFiles(cdir, repo string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	src := map[string]string{}
	err := filepath.Walk(cdir, func(p string, info os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if info.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			return nil
		}
		rel, _ := filepath.Rel(cdir, p)
		if !strings.HasPrefix(filepath.Base(p), "zz") && !strings.HasPrefix(rel, "zzvc") {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		d := filepath.Join(repo, rel)
		ov[d] = b
		src[d] = p
		return nil
	})
	return ov, src, err
}

func load(root, repo, cdir string, patterns []string, env []string, flags []string) (*Eng, error) {
	ov, _, err := overlayFiles(cdir, root)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Overlay: ov, Env: append(os.Environ(), env...), BuildFlags: flags}
	pk, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pk {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the tree with contracts does not type-check:\n%s", strings.Join(errs, "\n"))
	}
	prog, sp := ssautil.Packages(pk, ssa.InstantiateGenerics)
	prog.Build()
	e := &Eng{prog: prog, pkgs: map[string]*ssa.Package{}, tpk: map[string]*packages.Package{}, models: map[string][]*ssa.Function{}, opaques: map[string][]*ssa.Function{},
		boxTypes: map[string]types.Type{}, byTarget: map[*ssa.Function]*Harness{}, contrFile: map[*ssa.Function]bool{}, constGlob: map[*ssa.Global]Val{}, globWrite: map[*ssa.Global]bool{}, tableWritten: map[*ssa.Global]bool{}, writesMem: map[*ssa.Function]*writeSet{}, repo: repo, cdir: cdir}
	for i, p := range pk {
		e.fset = p.Fset
		if sp[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		e.pkgs[p.PkgPath] = sp[i]
		e.tpk[p.PkgPath] = p
	}
	for path, p := range e.tpk {
		if path == vcPath {
			continue
		}
		for _, f := range p.Syntax {
			fn := p.Fset.Position(f.Pos()).Filename
			if _, ok := ov[fn]; !ok {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok {
					continue
				}
				obj, _ := p.TypesInfo.Defs[fd.Name].(*types.Func)
				sf := prog.FuncValue(obj)
				if sf == nil {
					continue
				}
				e.contrFile[sf] = true
				if fd.Doc == nil {
					continue
				}
				if err := e.directives(path, fn, fd, sf); err != nil {
					return nil, err
				}
			}
		}
	}
	sort.Slice(e.harnesses, func(i, j int) bool { return e.harnesses[i].name < e.harnesses[j].name })
	e.scanGlobals()
	e.scanTables()
	e.runInits()
	return e, nil
}

func (e *Eng) directives(path, file string, fd *ast.FuncDecl, sf *ssa.Function) error {
	h := &Harness{name: strings.TrimPrefix(sf.Name(), "zz"), fn: sf, pkg: path, file: filepath.Base(file), timeout: 20, opts: map[string]string{}}
	is := false
	for _, c := range fd.Doc.List {
		t := strings.TrimPrefix(c.Text, "//")
		if !strings.HasPrefix(t, "vc:") {
			continue
		}
		parts := strings.Fields(strings.TrimPrefix(t, "vc:"))
		if len(parts) == 0 {
			continue
		}
		rest := strings.TrimSpace(strings.TrimPrefix(strings.TrimPrefix(t, "vc:"), parts[0]))
		switch parts[0] {
		case "contract":
			is = true
			h.targetName = rest
			h.target = e.findFn(path, rest)
			// a missing target is reported when the harness is run
		case "lemma":
			is = true
			h.lemma = true
		case "standalone":
			h.standalone = true
			is = is || h.targetName != ""
		case "prop":
			if !is {
				return fmt.Errorf("%s: %s: vc:prop without vc:contract or vc:lemma before it", file, sf.Name())
			}
			h.props = append(h.props, parts[1:]...)
		case "model":
			e.models[rest] = append(e.models[rest], sf)
		case "opaque":
			e.opaques[rest] = append(e.opaques[rest], sf)
		case "nosafety":
			h.nosafety = true
		case "noframe":
			h.noframe = true
		case "noreplay":
			h.noreplay = true
		case "trusted":
			h.trusted = true
		case "inline":
			h.inline = append(h.inline, parts[1:]...)
		case "solvers":
			h.solvers = strings.Split(rest, ",")
		case "timeout":
			fmt.Sscanf(rest, "%f", &h.timeout)
		case "opt":
			kv := strings.SplitN(rest, "=", 2)
			if len(kv) == 2 {
				h.opts[kv[0]] = kv[1]
			} else {
				h.opts[kv[0]] = "1"
			}
		default:
			return fmt.Errorf("%s: unknown directive %s", file, parts[0])
		}
	}
	if is {
		e.harnesses = append(e.harnesses, h)
		if h.target != nil && !h.standalone {
			if o := e.byTarget[h.target]; o != nil {
				return fmt.Errorf("two contracts for %s", h.target)
			}
			e.byTarget[h.target] = h
		} else if h.target != nil {
			if e.byTarget[h.target] == nil {
				// standalone contracts are not used at call sites
			}
		}
	}
	return nil
}

// findFn resolves "F", "(*T).M", "T.M" or "pkg/path:F" relative to a package.
func (e *Eng) findFn(path, name string) *ssa.Function {
	if i := strings.Index(name, ":"); i >= 0 {
		path = modPath + "/" + name[:i]
		if name[:i] == "" {
			path = modPath
		}
		name = name[i+1:]
	}
	p := e.pkgs[path]
	if p == nil {
		return nil
	}
	ptr := strings.HasPrefix(name, "(*")
	clean := strings.NewReplacer("(", "", ")", "", "*", "").Replace(name)
	if i := strings.Index(clean, "."); i >= 0 {
		tn, mn := clean[:i], clean[i+1:]
		t := p.Type(tn)
		if t == nil {
			return nil
		}
		var rt types.Type = t.Type()
		if ptr {
			rt = types.NewPointer(rt)
		}
		return e.prog.LookupMethod(rt, p.Pkg, mn)
	}
	return p.Func(clean)
}

// ---- package-level state

func (e *Eng) repoFns() []*ssa.Function {
	var out []*ssa.Function
	for f := range ssautil.AllFunctions(e.prog) {
		if isRepoFn(f) && f.Blocks != nil {
			out = append(out, f)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (e *Eng) scanGlobals() {
	for _, f := range e.repoFns() {
		isInit := f.Name() == "init" && f.Parent() == nil && f.Synthetic != ""
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := rootGlobal(s.Addr); ok && !isInit {
						e.globWrite[g] = true
					}
				}
			}
		}
	}
}

// scanTables finds the package-level variables whose contents (of the map, slice or pointer they hold) may change after initialisation: anything
// is done with them but reading, directly or in functions they are handed to.
func (e *Eng) scanTables() {
	type key struct {
		v ssa.Value
	}
	memo := map[key]int{} // 1: in progress or read only, 2: written
	var written, flows func(v ssa.Value) bool
	flows = func(v ssa.Value) bool { clear(memo); return written(v) }
	holds := func(t types.Type) bool {
		switch u := types.Unalias(t).Underlying().(type) {
		case *types.Basic, *types.Signature:
			return false
		case *types.Interface:
			return u.NumMethods() == 0 || !types.Identical(t, types.Universe.Lookup("error").Type())
		}
		return true
	}
	readers := map[string]int{"maps.Copy": 1, "maps.Clone": 0, "maps.Keys": 0, "maps.Values": 0, "maps.All": 0, "maps.Equal": -1, "slices.Contains": 0, "slices.Index": 0, "slices.Clone": 0,
		"slices.ContainsFunc": 0, "slices.IndexFunc": 0, "slices.Equal": -1, "strings.Join": 0, "slices.Values": 0, "slices.All": 0, "slices.BinarySearch": 0, "reflect.DeepEqual": -1, "slices.Concat": -1}
	callers, taken := map[*ssa.Function][]ssa.Value{}, map[*ssa.Function]bool{}
	for _, f := range e.repoFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, _ := in.(ssa.CallInstruction)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c != nil && op == &c.Common().Value {
						if v, ok := in.(ssa.Value); ok {
							callers[g] = append(callers[g], v)
						}
					} else {
						taken[g] = true
					}
				}
			}
		}
	}
	use := func(v ssa.Value, in ssa.Instruction) bool {
		switch i := in.(type) {
		case *ssa.Return:
			if taken[in.Parent()] || in.Parent().Signature.Recv() != nil {
				return true
			}
			for _, c := range callers[in.Parent()] {
				if written(c) {
					return true
				}
			}
			return false
		case *ssa.DebugRef, *ssa.If:
			return false
		case *ssa.Lookup, *ssa.Index, *ssa.Field, *ssa.Extract, *ssa.Range, *ssa.Next, *ssa.Phi, *ssa.Slice, *ssa.ChangeType, *ssa.MakeInterface, *ssa.TypeAssert, *ssa.ChangeInterface, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.BinOp:
			r := in.(ssa.Value)
			if _, ok := i.(*ssa.BinOp); ok {
				return false
			}
			return written(r)
		case *ssa.UnOp:
			return i.Op == token.MUL && holds(i.Type()) && written(i)
		case *ssa.Store:
			if i.Val != v {
				return true // through its address
			}
			// into a local variable that is only read
			a, ok := i.Addr.(*ssa.Alloc)
			return !ok || written(a)
		case ssa.CallInstruction:
			c := i.Common()
			if b, ok := c.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap", "min", "max", "print", "println":
					return false
				case "append":
					return c.Args[0] == v // the elements appended are copied (reference elements stay reachable: see holds)
				case "copy":
					return c.Args[0] == v
				}
				return true
			}
			f := c.StaticCallee()
			if f == nil {
				return true
			}
			if !isRepoFn(f) || f.Blocks == nil {
				n := f.Name()
				if o := f.Origin(); o != nil {
					n = o.Name()
				}
				pk := ""
				if f.Pkg != nil {
					pk = f.Pkg.Pkg.Path()
				} else if o := f.Origin(); o != nil && o.Pkg != nil {
					pk = o.Pkg.Pkg.Path()
				}
				if pk == vcPath {
					return false
				}
				at, ok := readers[pk+"."+n]
				if !ok {
					return true
				}
				for j, a := range c.Args {
					if a == v && at >= 0 && j != at {
						return true
					}
				}
				return false
			}
			for j, a := range c.Args {
				if a == v && (j >= len(f.Params) || written(f.Params[j])) {
					return true
				}
			}
			return c.Value == v
		}
		return true
	}
	written = func(v ssa.Value) bool {
		k := key{v}
		if m := memo[k]; m != 0 {
			return m == 2
		}
		memo[k] = 1
		if _, ok := v.(*ssa.Extract); ok && !holds(v.Type()) {
			return false
		}
		if v.Referrers() == nil {
			memo[k] = 2
			return true
		}
		_, isAlloc := v.(*ssa.Alloc)
		if !isAlloc && !holds(v.Type()) {
			if _, ok := v.(*ssa.Next); !ok {
				return false
			}
		}
		for _, in := range *v.Referrers() {
			if s, ok := in.(*ssa.Store); ok && isAlloc && s.Addr == v {
				continue // the variable is assigned, not what it holds
			}
			if use(v, in) {
				memo[k] = 2
				return true
			}
		}
		return false
	}
	for _, f := range e.repoFns() {
		isInit := f.Name() == "init" && f.Parent() == nil && f.Synthetic != ""
		if isInit || strings.HasPrefix(filepath.Base(e.prog.Fset.Position(f.Pos()).Filename), "zz") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || e.tableWritten[g] {
						continue
					}
					switch i := in.(type) {
					case *ssa.Store:
						if i.Val == ssa.Value(g) {
							e.globWrite[g], e.tableWritten[g] = true, true
						}
					case *ssa.UnOp:
						if holds(i.Type()) && flows(i) {
							e.tableWritten[g] = true
						}
					case *ssa.FieldAddr, *ssa.IndexAddr:
						// stores through it are found by scanGlobals
						for _, r := range *i.(ssa.Value).Referrers() {
							switch q := r.(type) {
							case *ssa.UnOp:
								if holds(q.Type()) && flows(q) {
									e.tableWritten[g] = true
								}
							case *ssa.Store, *ssa.DebugRef:
							case *ssa.FieldAddr, *ssa.IndexAddr:
								e.tableWritten[g] = e.tableWritten[g] || flows(q.(ssa.Value))
							default:
								e.globWrite[g], e.tableWritten[g] = true, true
							}
						}
					case *ssa.DebugRef:
					default: // its address is handed on
						e.globWrite[g], e.tableWritten[g] = true, true
					}
				}
			}
		}
	}
}

func rootGlobal(v ssa.Value) (*ssa.Global, bool) {
	for {
		switch a := v.(type) {
		case *ssa.Global:
			return a, true
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			if _, ok := a.X.Type().Underlying().(*types.Pointer); !ok {
				return nil, false
			}
			v = a.X
		default:
			return nil, false
		}
	}
}

func (e *Eng) newEx(h *Harness) *Ex {
	return &Ex{eng: e, h: h, noted: map[string]bool{}, globals: map[*ssa.Global]*Cell{}, loopInv: map[string]map[string]bool{}, modCache: map[string]*modset{},
		trusted: map[string]bool{}, inlined: map[string]bool{}, usedContr: map[string]bool{}, mode: "verify"}
}

func (e *Eng) runInits() {
	x := e.newEx(&Harness{nosafety: true, fn: &ssa.Function{}})
	x.mode = "init"
	zero := IntLit(0)
	x.alloc0 = NamedConst("alloc0", Int)
	st := &State{heaps: map[string]*Term{}, cells: map[*Cell]Val{}, fwd: map[*Cell]*Term{}, alloc: Alloc{zero, 1}, guard: True}
	var order []*ssa.Package
	seen := map[*types.Package]bool{}
	var visit func(p *types.Package)
	visit = func(p *types.Package) {
		if seen[p] {
			return
		}
		seen[p] = true
		for _, i := range p.Imports() {
			if isRepo(i) {
				visit(i)
			}
		}
		if sp := e.pkgs[p.Path()]; sp != nil && p.Path() != vcPath {
			order = append(order, sp)
		}
	}
	var paths []string
	for p := range e.pkgs {
		paths = append(paths, p)
	}
	sort.Strings(paths)
	for _, p := range paths {
		visit(e.pkgs[p].Pkg)
	}
	ok := map[*ssa.Global]bool{}
	for _, p := range order {
		in := p.Func("init")
		if in == nil || in.Blocks == nil {
			continue
		}
		fr := &Frame{fn: in, env: map[ssa.Value]Val{}, info: infoOf(in), cs: "init"}
		x.topFrame = fr
		x.curFrame = fr
		for _, b := range fr.info.rpo {
			for _, i := range b.Instrs {
				switch c := i.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic:
					continue
				case *ssa.Call:
					if f, isF := c.Call.Value.(*ssa.Function); isF && (f.Name() == "init" || strings.HasPrefix(f.Name(), "init#")) {
						continue
					}
				case *ssa.Store:
					if g, isG := c.Addr.(*ssa.Global); isG && strings.HasPrefix(g.Name(), "init$") {
						continue
					}
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							if u, isU := r.(unsupportedErr); isU {
								dbg("init of %s: %s: %s", p.Pkg.Path(), i, u.msg)
								return
							}
							panic(r)
						}
					}()
					x.instr(fr, st, i)
					if s, isS := i.(*ssa.Store); isS {
						if g, isG := rootGlobal(s.Addr); isG {
							if _, direct := s.Addr.(*ssa.Global); direct {
								ok[g] = true
							}
						}
					}
				}()
			}
		}
	}
	e.initN = st.alloc.off
	for g := range ok {
		if e.globWrite[g] {
			continue
		}
		c := x.globals[g]
		if v, have := st.cells[c]; have {
			if t, isT := v.(*Term); isT {
				e.constGlob[g] = t
			} else if cl, isC := v.(*Closure); isC {
				e.constGlob[g] = cl
			}
		}
	}
	// contents at literal references
	for name, h := range st.heaps {
		h0 := NamedConst("H0|"+name, heapTab[name].sort)
		if knownSelect[h0] == nil {
			knownSelect[h0] = map[int64]*Term{}
		}
		var chain []*Term
		for t := h; t.op == "store"; t = t.args[0] {
			chain = append(chain, t)
		}
		for i := len(chain) - 1; i >= 0; i-- {
			t := chain[i]
			if t.args[1].op == "int" {
				knownSelect[h0][t.args[1].ival] = t.args[2]
			}
		}
	}
	// what may change later is not known at literal references
	for g, w := range e.tableWritten {
		c := x.globals[g]
		v, _ := st.cells[c].(*Term)
		if !w || v == nil {
			continue
		}
		dbg("contents of %s may change", g)
		seen := map[*Term]bool{}
		var forget func(t *Term)
		forget = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == "int" && t.ival > 0 && t.ival <= e.initN {
				for _, m := range knownSelect {
					if c, ok := m[t.ival]; ok {
						delete(m, t.ival)
						forget(c)
					}
				}
			}
			for _, a := range t.args {
				forget(a)
			}
		}
		forget(v)
	}
	allocFloor[x.alloc0] = e.initN
}

func (x *Ex) globalInit(st *State, c *Cell) Val {
	if v, ok := x.eng.constGlob[c.glob]; ok {
		return v
	}
	v := NamedConst("G0|"+c.glob.String(), sortOf(c.typ))
	key := "glob|" + c.glob.String()
	if !x.noted[key] {
		x.noted[key] = true
		for _, f := range wf(c.typ, v, x.alloc0) {
			x.assumeWf(f, f)
		}
	}
	return v
}

// ---- static write sets

type writeSet struct {
	heaps   map[string]bool
	globals map[*ssa.Global]bool
}

func (e *Eng) writes(f *ssa.Function) *writeSet {
	if w, ok := e.writesMem[f]; ok {
		return w
	}
	w := &writeSet{map[string]bool{}, map[*ssa.Global]bool{}}
	type at struct {
		f *ssa.Function
		h *Harness
	}
	seen := map[at]bool{}
	var visit func(f *ssa.Function, hs *Harness)
	visit = func(f *ssa.Function, hs *Harness) {
		if f == nil || seen[at{f, hs}] {
			return
		}
		seen[at{f, hs}] = true
		if h := e.byTarget[f]; h != nil {
			hs = h // its own contract is verified with the models of its package
		}
		if h := e.byTarget[f]; h != nil && len(seen) > 1 {
			// ghost state its contract sets at a call
			for _, b := range h.fn.Blocks {
				for _, in := range b.Instrs {
					if s, ok := in.(*ssa.Store); ok {
						if g, ok := s.Addr.(*ssa.Global); ok {
							w.globals[g] = true
						}
					}
				}
			}
		}
		if m := e.model(fnKey(f), hs); m != nil {
			visit(m, hs)
			return
		}
		if f.Blocks == nil {
			// library: result slices and maps are fresh
			e.libWrites(f, w)
			return
		}
		if fnPkgPath(f) == vcPath {
			return
		}
		if !isRepoFn(f) && !isWrapper(f) {
			e.libWrites(f, w)
			return
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.Store:
					e.addrWrites(i.Addr, w)
				case *ssa.Alloc:
					t := i.Type().Underlying().(*types.Pointer).Elem()
					if at, ok := types.Unalias(t).Underlying().(*types.Array); ok {
						w.heaps[elemHeap(at.Elem())] = true
					} else {
						w.heaps[ptrHeap(t)] = true
					}
				case *ssa.MapUpdate:
					mapW(i.Map.Type(), w)
				case *ssa.MakeMap:
					mapW(i.Type(), w)
				case *ssa.MakeSlice:
					w.heaps[elemHeap(elemOf(i.Type()))] = true
				case *ssa.Slice:
					if _, ok := types.Unalias(i.X.Type()).Underlying().(*types.Slice); ok {
						w.heaps[elemHeap(elemOf(i.X.Type()))] = true
					}
				case *ssa.Convert:
					if sl, ok := types.Unalias(i.Type()).Underlying().(*types.Slice); ok {
						w.heaps[elemHeap(sl.Elem())] = true
					}
				case *ssa.MakeClosure:
					visit(i.Fn.(*ssa.Function), hs)
				}
				if c, ok := in.(ssa.CallInstruction); ok {
					cc := c.Common()
					if cc.IsInvoke() {
						key := "(" + types.TypeString(cc.Value.Type(), nil) + ")." + cc.Method.Name()
						visit(e.model(key, hs), hs)
						continue
					}
					switch v := cc.Value.(type) {
					case *ssa.Builtin:
						switch v.Name() {
						case "append":
							w.heaps[elemHeap(elemOf(cc.Args[0].Type()))] = true
						case "copy":
							w.heaps[elemHeap(elemOf(cc.Args[0].Type()))] = true
						case "delete":
							mapW(cc.Args[0].Type(), w)
						}
					case *ssa.Function:
						if k := fnKey(v); k == "maps.Copy" {
							mapW(cc.Args[0].Type(), w)
						} else if k == "slices.Reverse" {
							w.heaps[elemHeap(elemOf(cc.Args[0].Type()))] = true
						}
						visit(v, hs)
					case *ssa.MakeClosure:
					default:
						visit(e.opaqueModel(v.Type(), hs), hs)
					}
				}
			}
		}
	}
	visit(f, nil)
	e.writesMem[f] = w
	return w
}

func mapW(t types.Type, w *writeSet) {
	mt := types.Unalias(t).Underlying().(*types.Map)
	w.heaps[domHeap(mt)] = true
	w.heaps[valHeap(mt)] = true
	w.heaps[lenHeap(mt)] = true
}

func (e *Eng) libWrites(f *ssa.Function, w *writeSet) {
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		switch u := types.Unalias(res.At(i).Type()).Underlying().(type) {
		case *types.Slice:
			w.heaps[elemHeap(u.Elem())] = true
		case *types.Map:
			mapW(u, w)
		}
	}
}

func (e *Eng) addrWrites(a ssa.Value, w *writeSet) {
	for {
		switch v := a.(type) {
		case *ssa.FieldAddr:
			a = v.X
			continue
		case *ssa.IndexAddr:
			switch u := types.Unalias(v.X.Type()).Underlying().(type) {
			case *types.Slice:
				w.heaps[elemHeap(u.Elem())] = true
				return
			case *types.Pointer:
				at := u.Elem().Underlying().(*types.Array)
				w.heaps[elemHeap(at.Elem())] = true
				a = v.X
				continue
			}
		case *ssa.Global:
			w.globals[v] = true
			return
		}
		break
	}
	if pt, ok := types.Unalias(a.Type()).Underlying().(*types.Pointer); ok {
		if _, isArr := types.Unalias(pt.Elem()).Underlying().(*types.Array); !isArr {
			w.heaps[ptrHeap(pt.Elem())] = true
		}
	}
}
