// Package zzvc is the specification language of the contracts. The verifier (govc) gives each function its logical meaning; the bodies here
// are the executable reading, used only to replay a failed obligation against the real code.
package zzvc

import (
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strings"
	"time"
	"unsafe"
)

type skip struct{}
type fail struct{ name string }

// Mem is a snapshot of memory.
type Mem struct {
	s *snapshot
}

var (
	assumed   []string
	ghosts    = map[string]func(args ...any) bool{}
	ghostVals = map[string]func(args ...any) any{}
	gens      = map[string]func(g *G) []any{}
	typeGens  = map[reflect.Type]func(g *G) any{}
	cur       *G
)

// Requires states a precondition.
func Requires(c bool) {
	if !c {
		panic(skip{})
	}
}

// Ensures states a postcondition.
func Ensures(name string, c bool) {
	if !c {
		panic(fail{name})
	}
}

// Assert states a fact that is proved and then used.
func Assert(name string, c bool) {
	if !c {
		panic(fail{name})
	}
}

// Assume states a fact that is taken on trust and reported.
func Assume(name string, c bool) {
	if !c {
		panic(skip{})
	}
}

// Allocated reports whether the reference exists in the current state (always so in a run).
func Allocated[T any](p T) bool { return true }

// AllocatedIn reports whether the reference existed in the remembered memory.
func AllocatedIn[T any](pre Mem, p T) bool { return true }

func Cover(name string)      {}
func Implies(a, b bool) bool { return !a || b }
func Define(c bool)          {}
func Verifying() bool        { return false }
func Invariant(f any)        {}
func Modifies(x ...any)      {}
func ModifiesAny(x ...any)   {}
func ModifiesSpare(x ...any) {}
func ModifiesElems(x ...any) {}
func NewError() error        { return fmt.Errorf("vc error") }
func Fresh[T any](v T) bool  { return true }
func Below[T any](v T) bool  { return true }
func Any[T any]() (r T)      { return genAs[T]() }
func AnyOf[T any](x T) (r T) { return genAs[T]() }
func genAs[T any]() (r T) {
	if cur == nil {
		return
	}
	v := reflect.New(reflect.TypeOf(&r).Elem()).Elem()
	cur.fill(v, 3)
	r, _ = v.Interface().(T)
	return
}

func ModifiesMapsWhere[K comparable, V any](m map[K]V, f func(ref int) bool) {}

func Ghost(name string, args ...any) bool {
	if g := ghosts[name]; g != nil {
		return g(args...)
	}
	return true
}

// GhostVal is an uninterpreted function with an executable reading for replays.
func GhostVal[T any](name string, args ...any) (r T) {
	if g := ghostVals[name]; g != nil {
		r, _ = g(args...).(T)
	}
	return
}

// GhostValFn gives a ghost function an executable reading.
func GhostValFn(name string, f func(args ...any) any) { ghostVals[name] = f }

// ForallPtr ranges over all allocated objects; the executable reading takes it as given (it is used in hypotheses only).
func ForallPtr[T any](f func(p *T) bool) bool { return true }

// ForallMap ranges over all maps of a type; the executable reading takes it as given.
func ForallMap[K comparable, V any](f func(m map[K]V) bool) bool { return true }

// ForallSlice ranges over all positions of all backing arrays of a type; the executable reading takes it as given.
func ForallSlice[T any](f func(s []T, i int) bool) bool { return true }

// ForallVal ranges over all values of a type; the executable reading takes it as given (it is used in hypotheses only).
func ForallVal[T any](f func(x T) bool) bool { return true }

// GhostFn gives a ghost relation an executable reading.
func GhostFn(name string, f func(args ...any) bool) { ghosts[name] = f }

func Forall(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if !f(i) {
			return false
		}
	}
	return true
}

func Exists(lo, hi int, f func(i int) bool) bool {
	for i := lo; i < hi; i++ {
		if f(i) {
			return true
		}
	}
	return false
}

func ForallStr(f func(s string) bool) bool {
	if cur == nil {
		return true
	}
	for _, s := range append(append([]string{}, cur.trial...), cur.consts...) {
		if !f(s) {
			return false
		}
	}
	return true
}

func AllKeys[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if !f(k) {
			return false
		}
	}
	return true
}

func AnyKey[K comparable, V any](m map[K]V, f func(k K) bool) bool {
	for k := range m {
		if f(k) {
			return true
		}
	}
	return false
}

func Has[K comparable, V any](m map[K]V, k K) bool { _, ok := m[k]; return ok }

// Same is identity: references by address, values by content.
func Same[T any](a, b T) bool {
	return same(reflect.ValueOf(&a).Elem(), reflect.ValueOf(&b).Elem())
}
func SameFunc[T any](a, b T) bool                    { return Same(a, b) }
func SameMap[K comparable, V any](a, b map[K]V) bool { return Same(a, b) }
func SameSlice[T any](a, b []T) bool                 { return Same(a, b) }
func Ref[T any](v T) int {
	r := reflect.ValueOf(&v).Elem()
	switch r.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Func, reflect.Slice, reflect.Chan:
		return int(r.Pointer())
	case reflect.Interface:
		if r.IsNil() {
			return 0
		}
		e := r.Elem()
		switch e.Kind() {
		case reflect.Ptr, reflect.Map, reflect.Func, reflect.Slice:
			return int(e.Pointer())
		}
	}
	return 0
}

func same(a, b reflect.Value) bool {
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Ptr, reflect.Map, reflect.Chan, reflect.UnsafePointer:
		return a.Pointer() == b.Pointer()
	case reflect.Func:
		return *(*unsafe.Pointer)(addr(a)) == *(*unsafe.Pointer)(addr(b)) || a.Pointer() == b.Pointer()
	case reflect.Slice:
		return a.Len() == b.Len() && a.IsNil() == b.IsNil() && (a.Pointer() == b.Pointer() || a.Len() == 0)
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		x, y := reflect.New(a.Elem().Type()).Elem(), reflect.New(b.Elem().Type()).Elem()
		if !a.CanInterface() || !b.CanInterface() {
			a, b = access(a), access(b)
		}
		x.Set(a.Elem())
		y.Set(b.Elem())
		return same(x, y)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !same(access(a.Field(i)), access(b.Field(i))) {
				return false
			}
		}
		return true
	case reflect.Array:
		for i := 0; i < a.Len(); i++ {
			if !same(a.Index(i), b.Index(i)) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	if a.CanInt() {
		return a.Int() == b.Int()
	}
	if a.CanUint() {
		return a.Uint() == b.Uint()
	}
	return true
}

func addr(v reflect.Value) unsafe.Pointer {
	if v.CanAddr() {
		return unsafe.Pointer(v.UnsafeAddr())
	}
	n := reflect.New(v.Type())
	n.Elem().Set(v)
	return n.UnsafePointer()
}

// access lifts the read-only flag of unexported fields.
func access(v reflect.Value) reflect.Value {
	if v.CanAddr() {
		return reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	return v
}

func Snap[T any](s []T) []T {
	if s == nil {
		return nil
	}
	return append([]T{}, s...)
}

func SnapMap[K comparable, V any](m map[K]V) map[K]V {
	if m == nil {
		return nil
	}
	n := map[K]V{}
	for k, v := range m {
		n[k] = v
	}
	return n
}

// ---- memory snapshots

type cell struct {
	live reflect.Value // addressable
	old  reflect.Value
}

type mapSnap struct {
	m    reflect.Value
	keys []reflect.Value
	vals []reflect.Value
}

type snapshot struct {
	cells []cell
	maps  []mapSnap
	seen  map[unsafe.Pointer]map[reflect.Type]bool
}

// Pre remembers everything reachable from the roots.
func Pre(roots ...any) Mem {
	s := &snapshot{seen: map[unsafe.Pointer]map[reflect.Type]bool{}}
	for _, r := range roots {
		s.walk(reflect.ValueOf(r), 0)
	}
	return Mem{s}
}

func (s *snapshot) mark(p unsafe.Pointer, t reflect.Type) bool {
	if s.seen[p] == nil {
		s.seen[p] = map[reflect.Type]bool{}
	}
	if s.seen[p][t] {
		return false
	}
	s.seen[p][t] = true
	return true
}

func (s *snapshot) walk(v reflect.Value, d int) {
	if !v.IsValid() || d > 40 {
		return
	}
	v = access(v)
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() || !s.mark(v.UnsafePointer(), v.Type()) {
			return
		}
		e := v.Elem()
		if strings.HasPrefix(e.Type().PkgPath(), "go/") || strings.HasPrefix(e.Type().PkgPath(), "golang.org") {
			return
		}
		o := reflect.New(e.Type()).Elem()
		o.Set(e)
		s.cells = append(s.cells, cell{e, o})
		s.walk(e, d+1)
	case reflect.Slice:
		if v.IsNil() || v.Cap() == 0 || !s.mark(v.UnsafePointer(), v.Type()) {
			return
		}
		full := v.Slice3(0, v.Len(), v.Cap()).Slice(0, v.Cap())
		for i := 0; i < full.Len(); i++ {
			o := reflect.New(v.Type().Elem()).Elem()
			o.Set(full.Index(i))
			s.cells = append(s.cells, cell{full.Index(i), o})
			s.walk(full.Index(i), d+1)
		}
	case reflect.Map:
		if v.IsNil() || !s.mark(v.UnsafePointer(), v.Type()) {
			return
		}
		ms := mapSnap{m: v}
		it := v.MapRange()
		for it.Next() {
			ms.keys = append(ms.keys, it.Key())
			ms.vals = append(ms.vals, it.Value())
			s.walk(it.Value(), d+1)
		}
		s.maps = append(s.maps, ms)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			s.walk(v.Field(i), d+1)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			s.walk(v.Index(i), d+1)
		}
	case reflect.Interface:
		if !v.IsNil() {
			s.walk(v.Elem(), d+1)
		}
	}
}

func (s *snapshot) swap() {
	for i := range s.cells {
		c := &s.cells[i]
		t := reflect.New(c.live.Type()).Elem()
		t.Set(c.live)
		c.live.Set(c.old)
		c.old = t
	}
	for i := range s.maps {
		m := &s.maps[i]
		n := mapSnap{m: m.m}
		it := m.m.MapRange()
		for it.Next() {
			n.keys = append(n.keys, it.Key())
			n.vals = append(n.vals, it.Value())
		}
		for _, k := range n.keys {
			m.m.SetMapIndex(k, reflect.Value{})
		}
		for j, k := range m.keys {
			m.m.SetMapIndex(k, m.vals[j])
		}
		*m = n
	}
}

// Old evaluates f in the remembered memory.
func Old[T any](pre Mem, f func() T) T {
	if pre.s == nil {
		return f()
	}
	pre.s.swap()
	defer pre.s.swap()
	return f()
}

// ---- replay

// G generates inputs.
type G struct {
	*rand.Rand
	consts []string
	trial  []string
	ptrs   map[reflect.Type][]reflect.Value
	budget int
}

// Gen registers a generator for a harness (by function name).
func Gen(name string, f func(g *G) []any) { gens[name] = f }

// GenType registers a generator for a type.
func GenType[T any](f func(g *G) T) {
	var z T
	typeGens[reflect.TypeOf(&z).Elem()] = func(g *G) any { return f(g) }
}

func (g *G) newTrial(consts []string) {
	g.consts = consts
	g.trial = nil
	for i := 0; i < 2+g.Intn(4); i++ {
		g.trial = append(g.trial, g.rawStr())
	}
	g.ptrs = map[reflect.Type][]reflect.Value{}
	g.budget = 400
}

// GenStr registers another source of strings.
func GenStr(f func(g *G) string) { strGens = append(strGens, f) }

var strGens []func(g *G) string

func (g *G) rawStr() string {
	if len(strGens) > 0 && g.Intn(3) == 0 {
		return strGens[g.Intn(len(strGens))](g)
	}
	if len(g.consts) > 0 && g.Intn(3) > 0 {
		s := g.consts[g.Intn(len(g.consts))]
		switch g.Intn(10) {
		case 0:
			return s + g.alpha()
		case 1:
			return g.alpha() + s
		}
		return s
	}
	return g.alpha()
}

func (g *G) alpha() string {
	const al = "abAB:/{}*-,.;_ 1"
	var b strings.Builder
	for i := g.Intn(5); i > 0; i-- {
		b.WriteByte(al[g.Intn(len(al))])
	}
	return b.String()
}

// Str draws a string, often one already drawn in this trial.
func (g *G) Str() string {
	if g.Intn(4) > 0 && len(g.trial) > 0 {
		return g.trial[g.Intn(len(g.trial))]
	}
	return g.rawStr()
}

// Pick chooses one of the values.
func Pick[T any](g *G, xs ...T) T { return xs[g.Intn(len(xs))] }

// Val generates a value of a type.
func Val[T any](g *G) (r T) {
	v := reflect.ValueOf(&r).Elem()
	g.fill(v, 4)
	return
}

func (g *G) fill(v reflect.Value, depth int) {
	v = access(v)
	g.budget--
	if f := typeGens[v.Type()]; f != nil {
		x := reflect.ValueOf(f(g))
		if x.IsValid() {
			v.Set(x)
		}
		return
	}
	if depth < 0 || g.budget < 0 {
		return
	}
	switch v.Kind() {
	case reflect.String:
		v.SetString(g.Str())
	case reflect.Bool:
		v.SetBool(g.Intn(2) == 0)
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int16, reflect.Int8:
		v.SetInt([]int64{0, 1, 2, 3, -1, 7, 200, 204, 400}[g.Intn(9)] % 128)
		if v.Kind() == reflect.Int {
			v.SetInt([]int64{0, 1, 2, 3, -1, 200, 204, 400, 404}[g.Intn(9)])
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		v.SetUint(uint64(g.Intn(5)))
	case reflect.Float64, reflect.Float32:
		v.SetFloat(float64(g.Intn(3)))
	case reflect.Ptr:
		ps := g.ptrs[v.Type()]
		switch {
		case g.Intn(5) == 0:
		case len(ps) > 0 && g.Intn(4) == 0:
			v.Set(ps[g.Intn(len(ps))])
		default:
			p := reflect.New(v.Type().Elem())
			g.ptrs[v.Type()] = append(ps, p)
			g.fill(p.Elem(), depth-1)
			v.Set(p)
		}
	case reflect.Slice:
		if g.Intn(6) == 0 {
			return
		}
		n := g.Intn(4)
		s := reflect.MakeSlice(v.Type(), n, n+g.Intn(3))
		for i := 0; i < n; i++ {
			if i > 0 && g.Intn(4) == 0 {
				s.Index(i).Set(s.Index(g.Intn(i)))
				continue
			}
			g.fill(s.Index(i), depth-1)
		}
		v.Set(s)
	case reflect.Map:
		if g.Intn(6) == 0 {
			return
		}
		m := reflect.MakeMap(v.Type())
		for i := g.Intn(4); i > 0; i-- {
			k := reflect.New(v.Type().Key()).Elem()
			e := reflect.New(v.Type().Elem()).Elem()
			g.fill(k, depth-1)
			g.fill(e, depth-1)
			m.SetMapIndex(k, e)
		}
		v.Set(m)
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), depth-1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), depth-1)
		}
	case reflect.Func:
		if g.Intn(8) == 0 {
			return
		}
		ft := v.Type()
		rs := make([]reflect.Value, ft.NumOut())
		for i := range rs {
			rs[i] = reflect.New(ft.Out(i)).Elem()
			g.fill(rs[i], depth-1)
		}
		v.Set(reflect.MakeFunc(ft, func([]reflect.Value) []reflect.Value { return rs }))
	case reflect.Interface:
		if v.Type().String() == "error" {
			if g.Intn(2) == 0 {
				v.Set(reflect.ValueOf(fmt.Errorf("err")))
			}
		} else if v.NumMethod() == 0 && g.Intn(3) > 0 {
			if g.Intn(2) == 0 {
				v.Set(reflect.ValueOf(g.Str()))
			} else {
				v.Set(reflect.ValueOf(g.Intn(3)))
			}
		}
	}
}

// Outcome of a replay.
type Outcome struct {
	Name, Input string
	Trials, Ran int
}

// Replay runs the harness on generated inputs until a postcondition fails.
func Replay(name string, fn any, safety bool, consts []string, seed int64, budget time.Duration, max int) (o *Outcome, trials, ran int) {
	fv := reflect.ValueOf(fn)
	dead := time.Now().Add(budget)
	for trials = 0; trials < max && time.Now().Before(dead); trials++ {
		g := &G{Rand: rand.New(rand.NewSource(seed + int64(trials)))}
		g.newTrial(consts)
		cur = g
		args, ok := genArgs(name, g, fv)
		if !ok {
			continue
		}
		in := Dump(args)
		what := once(fv, args, safety)
		if what == "skip" {
			continue
		}
		ran++
		if what != "" {
			return &Outcome{Name: what, Input: fmt.Sprintf("seed %d trial %d\n%s", seed, trials, in), Trials: trials + 1, Ran: ran}, trials, ran
		}
	}
	return nil, trials, ran
}

func genArgs(name string, g *G, fv reflect.Value) (args []reflect.Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("VC_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "generator:", r, string(debug.Stack()))
			}
			ok = false
		}
	}()
	if f := gens[name]; f != nil {
		for i, a := range f(g) {
			t := fv.Type().In(i)
			v := reflect.New(t).Elem()
			if a != nil {
				v.Set(reflect.ValueOf(a))
			}
			args = append(args, v)
		}
		return args, true
	}
	for i := 0; i < fv.Type().NumIn(); i++ {
		v := reflect.New(fv.Type().In(i)).Elem()
		g.fill(v, 5)
		args = append(args, v)
	}
	return args, true
}

func once(fv reflect.Value, args []reflect.Value, safety bool) (what string) {
	defer func() {
		if r := recover(); r != nil {
			switch f := r.(type) {
			case skip:
				what = "skip"
			case fail:
				what = f.name
			default:
				what = "skip"
				if safety {
					what = fmt.Sprintf("panic: %v", r)
					if os.Getenv("VC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, string(debug.Stack()))
					}
				}
			}
		}
	}()
	fv.Call(args)
	return ""
}

// Dump renders a value for the replay file.
func Dump(vs []reflect.Value) string {
	var b strings.Builder
	seen := map[unsafe.Pointer]bool{}
	for i, v := range vs {
		fmt.Fprintf(&b, "arg %d: ", i)
		dump(&b, v, 0, seen)
		b.WriteByte('\n')
	}
	s := b.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func dump(b *strings.Builder, v reflect.Value, d int, seen map[unsafe.Pointer]bool) {
	if !v.IsValid() || d > 12 || b.Len() > 6000 {
		b.WriteString("…")
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		fmt.Fprintf(b, "&%x", v.Pointer()&0xfffff)
		p := v.UnsafePointer()
		if seen[p] || strings.HasPrefix(v.Type().Elem().PkgPath(), "go/") || strings.HasPrefix(v.Type().Elem().PkgPath(), "golang.org") {
			return
		}
		seen[p] = true
		dump(b, v.Elem(), d+1, seen)
	case reflect.Struct:
		b.WriteString("{")
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).IsZero() {
				continue
			}
			b.WriteString(v.Type().Field(i).Name + ":")
			dump(b, v.Field(i), d+1, seen)
			b.WriteString(" ")
		}
		b.WriteString("}")
	case reflect.Slice, reflect.Array:
		b.WriteString("[")
		for i := 0; i < v.Len(); i++ {
			dump(b, v.Index(i), d+1, seen)
			b.WriteString(", ")
		}
		b.WriteString("]")
	case reflect.Map:
		b.WriteString("map[")
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return fmt.Sprint(ks[i]) < fmt.Sprint(ks[j]) })
		for _, k := range ks {
			dump(b, k, d+1, seen)
			b.WriteString(":")
			dump(b, v.MapIndex(k), d+1, seen)
			b.WriteString(" ")
		}
		b.WriteString("]")
	case reflect.String:
		fmt.Fprintf(b, "%q", v.String())
	case reflect.Interface:
		if v.IsNil() {
			b.WriteString("nil")
			return
		}
		b.WriteString(v.Elem().Type().String() + " ")
		dump(b, v.Elem(), d+1, seen)
	case reflect.Func:
		if v.IsNil() {
			b.WriteString("nil")
		} else {
			b.WriteString("func")
		}
	case reflect.Bool:
		fmt.Fprintf(b, "%v", v.Bool())
	default:
		if v.CanInt() {
			fmt.Fprintf(b, "%d", v.Int())
		} else if v.CanUint() {
			fmt.Fprintf(b, "%d", v.Uint())
		} else {
			b.WriteString(v.Kind().String())
		}
	}
}

// Encoded: encoding *v and decoding the result into a zero value restores everything that is data: every exported field reached from v
// has a name of its own in the format, no function or channel is encoded, and only the named fields ("Type.Field,…") are left out.
// (The strings, numbers, maps and slices inside are the encoder's business.)
func Encoded[T any](v *T, format, exempt string) bool {
	seen := map[reflect.Type]bool{}
	var walk func(t reflect.Type) bool
	var fields func(t reflect.Type, names map[string]bool) bool
	fields = func(t reflect.Type, names map[string]bool) bool {
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if strings.Contains(","+exempt+",", ","+t.Name()+"."+f.Name+",") {
				continue
			}
			ok, inline, name := EncodedField(f.Name, f.PkgPath != "", f.Anonymous, string(f.Tag), format)
			if !ok {
				if k := f.Type.Kind(); k == reflect.Func || k == reflect.Chan {
					continue
				}
				return false
			}
			if inline {
				if f.Type.Kind() != reflect.Struct || !fields(f.Type, names) {
					return false
				}
				continue
			}
			if names[name] || !walk(f.Type) {
				return false
			}
			names[name] = true
		}
		return true
	}
	walk = func(t reflect.Type) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		switch t.Kind() {
		case reflect.Func, reflect.Chan, reflect.UnsafePointer, reflect.Complex128, reflect.Complex64:
			return false
		case reflect.Ptr, reflect.Slice, reflect.Array:
			return walk(t.Elem())
		case reflect.Map:
			return walk(t.Key()) && walk(t.Elem())
		case reflect.Struct:
			return fields(t, map[string]bool{})
		}
		return true
	}
	return walk(reflect.TypeOf(v).Elem())
}

// EncodedField: whether the field is encoded, whether its own fields take its place, and its name.
func EncodedField(field string, unexported, embedded bool, tag, format string) (ok, inline bool, name string) {
	s, tagged := reflect.StructTag(tag).Lookup(format)
	name, opts, _ := strings.Cut(s, ",")
	if unexported || tagged && s == "-" {
		return
	}
	ok = true
	if strings.Contains(","+opts+",", ",inline,") || format == "json" && embedded && name == "" {
		return ok, true, ""
	}
	if name == "" {
		name = field
		if format == "yaml" {
			name = strings.ToLower(field)
		}
	}
	return
}
