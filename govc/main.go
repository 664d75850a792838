package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

var (
	tier    = "quick"
	verbose bool
)

var loadPatterns = []string{
	modPath, modPath + "/astTraversal", modPath + "/utils", modPath + "/utils/...", modPath + "/inputs/...", modPath + "/outputs/...", modPath + "/cache/...", modPath + "/cli", modPath + "/zzvc", "./...",
}

// goEnv prepares module files outside the repository, so that no tracked file can change.
func goEnv(repo, tmp string) (cliMod, rootMod string, err error) {
	rd := func(p string) []byte {
		b, e := os.ReadFile(p)
		if e != nil && err == nil {
			err = e
		}
		return b
	}
	rm, rs := rd(filepath.Join(repo, "go.mod")), rd(filepath.Join(repo, "go.sum"))
	cm, cs := rd(filepath.Join(repo, "cli/astra/go.mod")), rd(filepath.Join(repo, "cli/astra/go.sum"))
	if err != nil {
		return
	}
	lines := map[string]bool{}
	for _, l := range strings.Split(string(rs)+"\n"+string(cs), "\n") {
		if l != "" {
			lines[l] = true
		}
	}
	var ls []string
	for l := range lines {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	cliMod, rootMod = filepath.Join(tmp, "cli.mod"), filepath.Join(tmp, "root.mod")
	w := func(p string, b []byte) {
		if e := os.WriteFile(p, b, 0o644); e != nil && err == nil {
			err = e
		}
	}
	w(cliMod, cm)
	w(filepath.Join(tmp, "cli.sum"), []byte(strings.Join(ls, "\n")+"\n"))
	w(rootMod, rm)
	w(filepath.Join(tmp, "root.sum"), []byte(strings.Join(ls, "\n")+"\n"))
	return
}

type hintsFile map[string]map[string]map[string]bool

func main() {
	var (
		prop      = flag.String("prop", "", "property to check")
		repo      = flag.String("repo", "/repo", "repository")
		verif     = flag.String("verif", "/verif", "verification directory")
		only      = flag.String("only", "", "comma separated harness names (development)")
		list      = flag.Bool("list", false, "list harnesses")
		native    = flag.Bool("native", false, "run the contracts natively on generated inputs (development)")
		writeHint = flag.Bool("write-hints", false, "record surviving invariants")
		noHint    = flag.Bool("no-hints", false, "ignore recorded invariants")
		keep      = flag.Bool("keep", false, "keep the temporary directory")
		secs      = flag.Int("native-secs", 10, "seconds per native run")
	)
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.Parse()
	if f := os.Getenv("GOVC_PROF"); f != "" {
		if w, err := os.Create(f); err == nil {
			pprof.StartCPUProfile(w)
		}
	}
	os.Setenv("PATH", "/opt/veriftools/go1.23.12/bin:"+os.Getenv("PATH"))
	os.Unsetenv("GOROOT")
	if t := os.Getenv("VERIF_TIER"); t == "thorough" {
		tier = t
	}
	seed := int64(1)
	if s, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		seed = s
	}
	tmp, err := os.MkdirTemp("", "govc")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	workTmp = tmp
	code := 2
	func() {
		defer func() {
			if r := recover(); r != nil && *prop != "" && !verbose {
				// an engine failure leaves the property undecided on this tree
				fmt.Fprintln(os.Stderr, "engine failure:", r)
				ck := &checker{prop: *prop, verif: *verif, seed: seed, start: time.Now()}
				ck.undecided(fmt.Sprintf("engine failure: %v", r))
				code = 1
			} else if r != nil {
				panic(r)
			}
		}()
		code = run(*prop, *repo, *verif, *only, *list, *native, *writeHint, *noHint, *secs, seed, tmp)
	}()
	if !*keep {
		os.RemoveAll(tmp)
	} else {
		fmt.Fprintln(os.Stderr, "kept", tmp)
	}
	pprof.StopCPUProfile()
	os.Exit(code)
}

type checker struct {
	prop    string
	verif   string
	seed    int64
	start   time.Time
	eng     *Eng
	tmp     string
	rootMod string
	cliMod  string
}

func run(prop, repo, verif, only string, list, native, writeHint, noHint bool, secs int, seed int64, tmp string) int {
	ck := &checker{prop: prop, verif: verif, seed: seed, start: time.Now(), tmp: tmp}
	cdir := filepath.Join(verif, "contracts")
	cliMod, rootMod, err := goEnv(repo, tmp)
	if err != nil {
		return ck.undecided(err.Error())
	}
	ck.cliMod, ck.rootMod = cliMod, rootMod
	e, err := load(repo, filepath.Join(repo, "cli/astra"), cdir, loadPatterns, []string{"GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod"}, []string{"-modfile=" + cliMod})
	if err != nil {
		return ck.undecided(err.Error())
	}
	e.repo = repo
	ck.eng = e
	if verbose {
		fmt.Fprintf(os.Stderr, "loaded in %.1fs, %d contracts\n", time.Since(ck.start).Seconds(), len(e.harnesses))
	}
	if list {
		for _, h := range e.harnesses {
			fmt.Printf("%-40s %-50s %v\n", h.name, h.targetName, h.props)
		}
		return 0
	}
	byName := map[string]*Harness{}
	for _, h := range e.harnesses {
		byName[h.name] = h
	}
	var queue []*Harness
	if only != "" {
		for _, n := range strings.Split(only, ",") {
			if byName[n] == nil {
				fmt.Fprintln(os.Stderr, "no harness", n)
				return 2
			}
			queue = append(queue, byName[n])
		}
	} else {
		for _, h := range e.harnesses {
			for _, p := range h.props {
				if p == prop || prop == "all" {
					queue = append(queue, h)
					break
				}
			}
		}
	}
	if native {
		rc := 0
		for _, h := range queue {
			out := ck.replay(h, time.Duration(secs)*time.Second)
			fmt.Printf("%s: %s\n", h.name, out.text)
			if out.found {
				rc = 1
			}
		}
		return rc
	}
	hints := hintsFile{}
	hp := filepath.Join(verif, "contracts", "hints.json")
	if b, err := os.ReadFile(hp); err == nil {
		json.Unmarshal(b, &hints)
	}
	done := map[string]*hRes{}
	var results []*hRes
	for len(queue) > 0 {
		h := queue[0]
		queue = queue[1:]
		if done[h.name] != nil {
			continue
		}
		var hint map[string]map[string]bool
		if !noHint {
			hint = hints[h.name]
		}
		r := e.safeVerify(h, hint)
		if !r.ok && only == "" && prop != "all" && !h.noreplay && (r.hintFail || len(r.failed) > 0) {
			// before searching for other invariants: an input of the real code that breaks the contract settles it
			if o := ck.replay(h, 8*time.Second); o.found {
				r.found = o.text
			}
		}
		if r.hintFail && r.found == "" {
			if verbose {
				fmt.Fprintf(os.Stderr, "[%s] recorded invariants insufficient (%s), full search\n", h.name, r.failed[0].Name)
			}
			s := r.solver
			r = e.safeVerify(h, nil)
			r.solver += s
		}
		done[h.name] = r
		results = append(results, r)
		if verbose {
			st := "ok"
			if !r.ok {
				st = "FAILED " + r.err + r.vacuous
			}
			fmt.Fprintf(os.Stderr, "== %s: %s  (%d obligations, %d invariants, %d passes, %.1fs, solver %.1fs)\n", h.name, st, len(r.obls), r.invs, r.passes, r.secs, r.solver)
			for _, f := range r.failed {
				fmt.Fprintf(os.Stderr, "     %s [%s] %s at %s\n", f.Name, f.Status, f.Backend, f.Pos)
			}
		}
		if only == "" {
			var us []string
			for u := range r.used {
				us = append(us, u)
			}
			sort.Strings(us)
			for _, u := range us {
				if byName[u] != nil && done[u] == nil {
					queue = append(queue, byName[u])
				}
			}
		}
		if writeHint && r.ok {
			hints[h.name] = r.survivors
		}
	}
	if writeHint {
		b, _ := json.MarshalIndent(hints, "", " ")
		os.WriteFile(hp, append(b, '\n'), 0o644)
	}
	if only != "" || prop == "all" {
		rc := 0
		for _, r := range results {
			if !r.ok {
				rc = 1
			}
		}
		return rc
	}
	if len(results) == 0 {
		return ck.undecided("no contract carries this property")
	}
	return ck.report(results)
}

func (e *Eng) safeVerify(h *Harness, hint map[string]map[string]bool) (r *hRes) {
	if verbose && os.Getenv("GOVC_PANIC") != "" {
		return e.verify(h, hint)
	}
	defer func() {
		if p := recover(); p != nil {
			r = &hRes{h: h, err: fmt.Sprintf("engine failure: %v", p)}
		}
	}()
	return e.verify(h, hint)
}

func (ck *checker) undecided(msg string) int {
	if ck.prop == "" || ck.prop == "all" {
		fmt.Fprintln(os.Stderr, msg)
		return 2
	}
	p := ck.replayFile(map[string]any{"property": ck.prop, "failed_obligation": "all", "reason": msg})
	ck.evidence(map[string]any{"obligations": 1, "discharged": 0, "checker_cmd": ck.cmd(), "trusted_base": trustedBase(), "note": msg}, nil, 1)
	fmt.Println(msg)
	fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", ck.prop, p)
	return 1
}

func (ck *checker) cmd() string { return "bin/check " + ck.prop }

func (ck *checker) replayFile(v any) string {
	dir := filepath.Join(ck.verif, "replay")
	os.MkdirAll(dir, 0o755)
	p := filepath.Join(dir, ck.prop+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	os.WriteFile(p, b, 0o644)
	return p
}

func (ck *checker) evidence(cov map[string]any, assumptions []string, viol int) {
	ev := map[string]any{"property": ck.prop, "tier": tier, "seed": ck.seed, "level": "proof", "coverage": cov, "assumptions": assumptions, "wall_s": time.Since(ck.start).Seconds(), "violations": viol}
	if assumptions == nil {
		ev["assumptions"] = []string{}
	}
	dir := filepath.Join(ck.verif, "evidence")
	os.MkdirAll(dir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(dir, ck.prop+".json"), append(b, '\n'), 0o644)
}

func trustedBase() []string {
	return []string{
		"govc, the verification condition generator in /verif/govc (go/ssa of x/tools v0.22.0 as the semantics of the source)",
		"z3 4.8.12 and 5.3.2, cvc5 1.1.2 (an obligation counts as discharged when one of them answers unsat)",
		"integers are mathematical (no overflow); floats are uninterpreted; strings are SMT strings over the code units Go uses",
		"absence of data races; memory exhaustion and stack overflow not modelled; termination not proved",
	}
}

type known struct {
	prop, obl, text string
}

func (ck *checker) known() []known {
	b, err := os.ReadFile(filepath.Join(ck.verif, "known_findings.txt"))
	if err != nil {
		return nil
	}
	var out []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "property=") {
			continue
		}
		f := strings.SplitN(l, " ", 3)
		if len(f) < 3 || !strings.HasPrefix(f[1], "obligation=") {
			continue
		}
		out = append(out, known{strings.TrimPrefix(f[0], "property="), strings.TrimPrefix(f[1], "obligation="), f[2]})
	}
	return out
}

func (ck *checker) report(results []*hRes) int {
	nObl, nDis, nInv := 0, 0, 0
	back := map[string]int{}
	solver := 0.0
	trusted := map[string]bool{}
	inlined := map[string]bool{}
	var contracts []map[string]any
	var failed []map[string]any
	var bad []*hRes
	kn := ck.known()
	hit := map[int]bool{}
	isKnown := func(name string) bool {
		for i, k := range kn {
			if k.prop == ck.prop && k.obl == name {
				hit[i] = true
				return true
			}
		}
		return false
	}
	for _, r := range results {
		solver += r.solver
		nInv += r.invs
		d := 0
		for _, o := range r.obls {
			if o.Status == "unsat" {
				d++
				back[o.Backend]++
			}
		}
		nObl += len(r.obls)
		nDis += d
		if len(r.obls) == 0 {
			nObl++
		}
		for t := range r.trusted {
			trusted[t] = true
		}
		for t := range r.inlined {
			inlined[t] = true
		}
		tn := r.h.targetName
		if r.h.lemma {
			tn = "lemma"
		}
		contracts = append(contracts, map[string]any{"contract": r.h.name, "function": tn, "file": r.h.file, "obligations": len(r.obls), "discharged": d, "loop_invariants": r.invs, "solver_s": round(r.solver), "wall_s": round(r.secs)})
		if r.ok {
			continue
		}
		isBad := false
		if r.err != "" || r.vacuous != "" {
			failed = append(failed, map[string]any{"obligation": r.h.name + "/*", "reason": r.err + r.vacuous})
			isBad = true
		}
		for _, f := range r.failed {
			if isKnown(f.Name) {
				nObl-- // a recorded finding is not an obligation of the unchanged tree
				continue
			}
			isBad = true
			failed = append(failed, map[string]any{"obligation": f.Name, "kind": f.Kind, "solver": f.Backend + ": " + f.Status, "at": f.Pos, "output": clip(f.Output)})
		}
		if isBad {
			bad = append(bad, r)
		}
	}
	for i, k := range kn {
		if hit[i] {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", k.prop, k.text, k.obl)
		}
	}
	cov := map[string]any{"obligations": nObl, "discharged": nDis, "checker_cmd": ck.cmd(), "trusted_base": trustedBase(), "by_back_end": back, "loop_invariant_obligations": nInv, "solver_s": round(solver), "functions_under_contract": contracts, "functions_inlined_from_source": keys(inlined)}
	viol := 0
	if len(bad) > 0 {
		viol = 1
	}
	as := keys(trusted)
	ck.evidence(cov, as, viol)
	fmt.Printf("%s: %d of %d obligations discharged over %d contracts (%d loop-invariant obligations), solver %.1fs, wall %.1fs\n", ck.prop, nDis, nObl, len(results), nInv, solver, time.Since(ck.start).Seconds())
	if len(bad) == 0 {
		return 0
	}
	// a failed obligation: look for an input of the real code that shows it
	found := false
	var reps []map[string]any
	left := 780*time.Second - time.Since(ck.start)
	for _, r := range bad {
		if r.found != "" {
			reps = append(reps, map[string]any{"contract": r.h.name, "found": true, "replay": r.found})
			found = true
			break
		}
	}
	for _, r := range bad {
		if found {
			break
		}
		if r.h.noreplay || left < 30*time.Second {
			continue
		}
		b := 25 * time.Second
		if len(bad) > 4 {
			b = 10 * time.Second
		}
		t0 := time.Now()
		o := ck.replay(r.h, b)
		left -= time.Since(t0)
		reps = append(reps, map[string]any{"contract": r.h.name, "found": o.found, "replay": o.text})
		if o.found {
			found = true
			break
		}
	}
	p := ck.replayFile(map[string]any{"property": ck.prop, "failed_obligations": failed, "replays": reps, "checker_cmd": ck.cmd()})
	for _, f := range failed {
		fmt.Printf("failed obligation: %v %v\n", f["obligation"], f["reason"])
	}
	if found {
		fmt.Println(reps[len(reps)-1]["replay"])
		fmt.Printf("VIOLATION property=%s replay=%s\n", ck.prop, p)
	} else {
		fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", ck.prop, p)
	}
	return 1
}

func clip(s string) string {
	if len(s) > 3000 {
		return s[:3000] + "..."
	}
	return s
}

func round(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

func keys(m map[string]bool) []string {
	out := []string{}
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// ---- replay on the real code

type replayOut struct {
	found bool
	text  string
}

func (ck *checker) consts(h *Harness) []string {
	seen := map[string]bool{}
	var out []string
	for _, p := range ck.eng.tpk {
		if p.PkgPath != h.pkg && !(h.target != nil && h.target.Pkg != nil && h.target.Pkg.Pkg.Path() == p.PkgPath) {
			continue
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING && len(l.Value) < 60 {
					if _, isImp := n.(*ast.ImportSpec); !isImp {
						s, err := strconv.Unquote(l.Value)
						if err == nil && !seen[s] && !strings.Contains(s, " ") {
							seen[s] = true
							out = append(out, s)
						}
					}
				}
				return true
			})
		}
	}
	sort.Strings(out)
	return out
}

func (ck *checker) replay(h *Harness, budget time.Duration) replayOut {
	e := ck.eng
	rel := strings.TrimPrefix(strings.TrimPrefix(h.pkg, modPath), "/")
	dir := filepath.Join(e.repo, rel)
	cdir := filepath.Join(ck.verif, "contracts")
	ov := map[string]string{}
	filepath.Walk(cdir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		r, _ := filepath.Rel(cdir, p)
		ov[filepath.Join(e.repo, r)] = p
		return nil
	})
	pkgName := e.pkgs[h.pkg].Pkg.Name()
	var cs []string
	for _, s := range ck.consts(h) {
		cs = append(cs, strconv.Quote(s))
	}
	src := fmt.Sprintf(`package %s

import (
	"fmt"
	"testing"
	"time"

	"%s"
)

func TestZZReplay(t *testing.T) {
	consts := []string{%s}
	o, trials, ran := zzvc.Replay(%q, %s, %v, consts, %d, %d*time.Millisecond, 3000000)
	if o == nil {
		fmt.Printf("ZZNONE %%d inputs generated, %%d satisfied the precondition, no postcondition failed\n", trials, ran)
		return
	}
	fmt.Printf("ZZFOUND %%s fails on the real code after %%d inputs (%%d satisfied the precondition)\n%%s\nZZEND\n", o.Name, trials, ran, o.Input)
}
`, pkgName, vcPath, strings.Join(cs, ", "), h.fn.Name(), h.fn.Name(), !h.nosafety, ck.seed, budget.Milliseconds())
	tf := filepath.Join(ck.tmp, "zz_replay_"+h.name+"_test.go")
	os.WriteFile(tf, []byte(src), 0o644)
	ov[filepath.Join(dir, "zz_replay_test.go")] = tf
	b, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(ck.tmp, "overlay_"+h.name+".json")
	os.WriteFile(of, b, 0o644)
	mod := ck.rootMod
	if strings.HasPrefix(rel, "cli/astra") {
		mod = ck.cliMod
	}
	wd := dir
	bin := filepath.Join(ck.tmp, "replay_"+h.name+".test")
	env := append(os.Environ(), "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOFLAGS=-mod=mod")
	bc := exec.Command("go", "test", "-c", "-vet=off", "-overlay", of, "-modfile", mod, "-o", bin, ".")
	bc.Dir, bc.Env = wd, env
	if out, err := bc.CombinedOutput(); err != nil {
		return replayOut{false, "replay does not build: " + clip(string(out))}
	}
	scratch, _ := os.MkdirTemp(ck.tmp, "run")
	cmd := exec.Command("timeout", "-k", "5", strconv.Itoa(int(budget.Seconds())+20), bin, "-test.run", "TestZZReplay$", "-test.v")
	cmd.Dir = scratch
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=4GiB")
	o, _ := cmd.CombinedOutput()
	s := string(o)
	if i := strings.Index(s, "ZZFOUND"); i >= 0 {
		s = s[i+8:]
		if j := strings.Index(s, "ZZEND"); j >= 0 {
			s = s[:j]
		}
		return replayOut{true, s}
	}
	if i := strings.Index(s, "ZZNONE"); i >= 0 {
		s = s[i+7:]
		if j := strings.IndexByte(s, '\n'); j >= 0 {
			s = s[:j]
		}
		return replayOut{false, s}
	}
	if len(s) > 2000 {
		s = s[len(s)-2000:]
	}
	return replayOut{false, "replay ended abnormally: " + s}
}

var _ types.Type
