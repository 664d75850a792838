package main

// Hash-consed first-order terms with light simplification, and their SMT-LIB printing.

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"
)

type SortKind int

const (
	KBool SortKind = iota
	KInt
	KReal
	KStr
	KArray
	KDT // single-constructor datatype (struct, slice)
	KIf // the interface datatype
	KUnint
)

type Sort struct {
	kind SortKind
	name string
	key  *Sort
	elem *Sort
}

var sortTab = map[string]*Sort{}

func mkSort(s Sort) *Sort {
	k := fmt.Sprintf("%d|%s", s.kind, s.name)
	if x, ok := sortTab[k]; ok {
		return x
	}
	x := &s
	sortTab[k] = x
	return x
}

var (
	Bool = mkSort(Sort{kind: KBool, name: "Bool"})
	Int  = mkSort(Sort{kind: KInt, name: "Int"})
	Real = mkSort(Sort{kind: KReal, name: "Real"})
	Str  = mkSort(Sort{kind: KStr, name: "Str"})
	Ifc  = mkSort(Sort{kind: KIf, name: "Iface"})
)

func ArrSort(k, v *Sort) *Sort {
	return mkSort(Sort{kind: KArray, name: "(Array " + k.name + " " + v.name + ")", key: k, elem: v})
}
func USort(n string) *Sort { return mkSort(Sort{kind: KUnint, name: n}) }

type DT struct {
	name   string
	fields []string
	sorts  []*Sort
}

var dts = map[string]*DT{}

func DTSort(d *DT) *Sort { return mkSort(Sort{kind: KDT, name: d.name}) }

type Box struct {
	key  string // type string
	ctor string
	sort *Sort
	typ  types.Type
}

var boxes = map[string]*Box{}
var boxOrder []*Box

type Term struct {
	id    int
	op    string
	sort  *Sort
	args  []*Term
	ival  int64
	sval  string
	bvars []*Term
	pats  [][]*Term
	free  []*Term // free bound variables
}

var termTab = map[string]*Term{}
var termCount int

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteString(t.op)
	b.WriteByte('#')
	b.WriteString(t.sort.name)
	b.WriteByte('#')
	b.WriteString(strconv.FormatInt(t.ival, 10))
	b.WriteByte('#')
	b.WriteString(t.sval)
	for _, a := range t.args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.bvars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, p := range t.pats {
		b.WriteByte('!')
		for _, a := range p {
			b.WriteByte(',')
			b.WriteString(strconv.Itoa(a.id))
		}
	}
	k := b.String()
	if x, ok := termTab[k]; ok {
		return x
	}
	termCount++
	t.id = termCount
	if t.op == "bvar" {
		x := &t
		x.free = []*Term{x}
		termTab[k] = x
		return x
	}
	m := map[int]*Term{}
	for _, a := range t.args {
		for _, f := range a.free {
			m[f.id] = f
		}
	}
	for _, v := range t.bvars {
		delete(m, v.id)
	}
	if len(m) > 0 {
		ids := make([]int, 0, len(m))
		for i := range m {
			ids = append(ids, i)
		}
		sort.Ints(ids)
		for _, i := range ids {
			t.free = append(t.free, m[i])
		}
	}
	x := &t
	termTab[k] = x
	return x
}

func mk(op string, s *Sort, args ...*Term) *Term { return intern(Term{op: op, sort: s, args: args}) }

var True = mk("true", Bool)
var False = mk("false", Bool)

func IntLit(i int64) *Term  { return intern(Term{op: "int", sort: Int, ival: i}) }
func StrLit(s string) *Term { return intern(Term{op: "str", sort: Str, sval: s}) }
func BoolLit(b bool) *Term {
	if b {
		return True
	}
	return False
}

var freshCount int

// Const makes a fresh uninterpreted constant.
func Fresh(hint string, s *Sort) *Term {
	freshCount++
	return intern(Term{op: "const", sort: s, sval: fmt.Sprintf("%s!%d", hint, freshCount)})
}
func NamedConst(name string, s *Sort) *Term { return intern(Term{op: "const", sort: s, sval: name}) }
func BVar(hint string, s *Sort) *Term {
	freshCount++
	return intern(Term{op: "bvar", sort: s, sval: fmt.Sprintf("%s?%d", hint, freshCount)})
}

func isLit(t *Term) bool {
	return t.op == "int" || t.op == "str" || t.op == "true" || t.op == "false" || t.op == "ifnil"
}

// splitAdd views t as base+k.
func splitAdd(t *Term) (*Term, int64) {
	if t.op == "int" {
		return nil, t.ival
	}
	if t.op == "+" && len(t.args) == 2 && t.args[1].op == "int" {
		return t.args[0], t.args[1].ival
	}
	return t, 0
}

func Add(a, b *Term) *Term {
	if a.sort == Real || b.sort == Real {
		return mk("+", Real, a, b)
	}
	ab, ak := splitAdd(a)
	bb, bk := splitAdd(b)
	k := ak + bk
	var base *Term
	switch {
	case ab == nil && bb == nil:
		return IntLit(k)
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		if ab.id > bb.id {
			ab, bb = bb, ab
		}
		base = mk("+", Int, ab, bb)
	}
	if k == 0 {
		return base
	}
	return mk("+", Int, base, IntLit(k))
}
func Sub(a, b *Term) *Term {
	if a.sort == Real {
		return mk("-", Real, a, b)
	}
	ab, ak := splitAdd(a)
	bb, bk := splitAdd(b)
	if ab == bb {
		return IntLit(ak - bk)
	}
	if bb == nil {
		return Add(a, IntLit(-bk))
	}
	if ab == nil {
		return Add(mk("-", Int, IntLit(0), bb), IntLit(ak-bk))
	}
	return Add(mk("-", Int, ab, bb), IntLit(ak-bk))
}
func Mul(a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		return IntLit(a.ival * b.ival)
	}
	return mk("*", a.sort, a, b)
}

func cmp(op string, a, b *Term) *Term {
	if a.op == "int" && b.op == "int" {
		switch op {
		case "<":
			return BoolLit(a.ival < b.ival)
		case "<=":
			return BoolLit(a.ival <= b.ival)
		}
	}
	if a.sort == Int {
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab == bb {
			if op == "<" {
				return BoolLit(ak < bk)
			}
			return BoolLit(ak <= bk)
		}
	}
	if a == b {
		return BoolLit(op == "<=")
	}
	return mk(op, Bool, a, b)
}
func Lt(a, b *Term) *Term { return cmp("<", a, b) }
func Le(a, b *Term) *Term { return cmp("<=", a, b) }

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.args[0]
	case "<":
		return cmp("<=", a.args[1], a.args[0])
	case "<=":
		return cmp("<", a.args[1], a.args[0])
	}
	return mk("not", Bool, a)
}

func And(xs ...*Term) *Term { return nary("and", xs) }
func Or(xs ...*Term) *Term  { return nary("or", xs) }

func nary(op string, xs []*Term) *Term {
	unit, zero := True, False
	if op == "or" {
		unit, zero = False, True
	}
	seen := map[*Term]bool{}
	var out []*Term
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[Not(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if op == "or" && len(out) > 1 {
		out = factorOr(out)
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, Bool, out...)
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

// factorOr repeatedly merges (and P c) with (and P (not c)) into P.
func factorOr(xs []*Term) []*Term {
	for {
		changed := false
	outer:
		for i := 0; i < len(xs); i++ {
			for j := i + 1; j < len(xs); j++ {
				if m := mergeOr(xs[i], xs[j]); m != nil {
					ys := append([]*Term{}, xs[:i]...)
					ys = append(ys, m)
					ys = append(ys, xs[i+1:j]...)
					ys = append(ys, xs[j+1:]...)
					xs = ys
					changed = true
					break outer
				}
			}
		}
		if !changed {
			return xs
		}
		for _, x := range xs {
			if x == True {
				return []*Term{True}
			}
		}
	}
}

func mergeOr(a, b *Term) *Term {
	ca, cb := conj(a), conj(b)
	ina := map[*Term]bool{}
	for _, x := range ca {
		ina[x] = true
	}
	inb := map[*Term]bool{}
	for _, x := range cb {
		inb[x] = true
	}
	var da, db, common []*Term
	for _, x := range ca {
		if inb[x] {
			common = append(common, x)
		} else {
			da = append(da, x)
		}
	}
	for _, x := range cb {
		if !ina[x] {
			db = append(db, x)
		}
	}
	if len(da) == 0 {
		return a
	}
	if len(db) == 0 {
		return b
	}
	if len(da) == 1 && len(db) == 1 && da[0] == Not(db[0]) {
		return And(common...)
	}
	// common & (d | e) where e = not d & rest:  d | (not d & rest) = d | rest
	if len(da) == 1 {
		for i, x := range db {
			if x == Not(da[0]) {
				rest := append(append([]*Term{}, db[:i]...), db[i+1:]...)
				return And(append(common, mk("or", Bool, da[0], And(rest...)))...)
			}
		}
	}
	return nil
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	for _, x := range conj(a) {
		if x == b {
			return True
		}
	}
	return mk("=>", Bool, a, b)
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("ite sort mismatch %s %s", a.sort.name, b.sort.name))
	}
	if a.sort == Bool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if a.op == "ite" && a.args[0] == c {
		return Ite(c, a.args[1], b)
	}
	if b.op == "ite" && b.args[0] == c {
		return Ite(c, a, b.args[2])
	}
	return mk("ite", a.sort, c, a, b)
}

// distinctTerms: provably different.
func distinctTerms(a, b *Term) bool {
	if a == b {
		return false
	}
	if isLit(a) && isLit(b) {
		return true
	}
	if a.sort == Int {
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab == bb && ak != bk {
			return true
		}
		// Allocation bases are at least 1; so base+k (k>=0) differs from literals below the base's floor.
		if ab != nil && bb == nil && allocFloor[ab] > 0 && ak >= 0 && bk < allocFloor[ab]+ak {
			return true
		}
		if bb != nil && ab == nil && allocFloor[bb] > 0 && bk >= 0 && ak < allocFloor[bb]+bk {
			return true
		}
		// base1 + k vs a term known to be below base1
		if ab != nil && isBelow(b, ab) && ak >= 0 {
			return true
		}
		if bb != nil && isBelow(a, bb) && bk >= 0 {
			return true
		}
	}
	if a.sort == Str && (a.op == "uf:str.++" || b.op == "uf:str.++") {
		p, q := catParts(a), catParts(b)
		if s, t := p[0], q[0]; s.op == "str" && t.op == "str" {
			if !strings.HasPrefix(s.sval, t.sval) && !strings.HasPrefix(t.sval, s.sval) || len(q) == 1 && len(s.sval) > len(t.sval) || len(p) == 1 && len(t.sval) > len(s.sval) {
				return true
			}
		}
		if s, t := p[len(p)-1], q[len(q)-1]; s.op == "str" && t.op == "str" {
			if !strings.HasSuffix(s.sval, t.sval) && !strings.HasSuffix(t.sval, s.sval) || len(q) == 1 && len(s.sval) > len(t.sval) || len(p) == 1 && len(t.sval) > len(s.sval) {
				return true
			}
		}
	}
	if strings.HasPrefix(a.op, "mk:") && a.op == b.op {
		for i := range a.args {
			if distinctTerms(a.args[i], b.args[i]) {
				return true
			}
		}
	}
	if strings.HasPrefix(a.op, "box:") || a.op == "ifnil" {
		if strings.HasPrefix(b.op, "box:") || b.op == "ifnil" {
			if a.op != b.op {
				return true
			}
			return distinctTerms(a.args[0], b.args[0])
		}
	}
	return false
}

// allocFloor maps an allocation base constant to a literal lower bound.
var allocFloor = map[*Term]int64{}

// allocPred records that base constant b was introduced with b >= prev+k.
type allocP struct {
	base *Term
	off  int64
}

var allocPreds = map[*Term][]allocP{}

// belowBound: t is a reference value known (by the assumptions emitted when it was introduced) to be < bound base(+0).
var belowBound = map[*Term]*Term{}

func baseLE(a, b *Term) bool {
	// a <= b by chain of predecessors of b
	if a == b {
		return true
	}
	for _, p := range allocPreds[b] {
		if p.off >= 0 && baseLE(a, p.base) {
			return true
		}
	}
	return false
}

func isBelow(t, base *Term) bool {
	if _, isBase := allocFloor[base]; !isBase {
		return false
	}
	if bb, ok := belowBound[t]; ok && baseLE(bb, base) {
		return true
	}
	// older allocation: oldbase+k < base
	tb, tk := splitAdd(t)
	if tb != nil {
		if _, isB := allocFloor[tb]; isB && tb != base {
			for _, p := range allocPreds[base] {
				if p.base == tb && tk < p.off {
					return true
				}
				if p.base != tb && (isBelow(t, p.base)) {
					return true
				}
			}
		}
	}
	return false
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sort mismatch: %s (%s) vs %s (%s)", a.sort.name, a.op, b.sort.name, b.op))
	}
	if distinctTerms(a, b) {
		return False
	}
	if a.sort == Bool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if strings.HasPrefix(a.op, "mk:") && a.op == b.op {
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if strings.HasPrefix(a.op, "box:") && a.op == b.op {
		return Eq(a.args[0], b.args[0])
	}
	if a.op == "ite" && isLit(b) && (isLit(a.args[1]) || isLit(a.args[2])) {
		return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
	}
	if b.op == "ite" && isLit(a) && (isLit(b.args[1]) || isLit(b.args[2])) {
		return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
	}
	if a.sort == Int {
		ab, ak := splitAdd(a)
		bb, bk := splitAdd(b)
		if ab != nil && bb != nil && ak != 0 && bk != 0 {
			return Eq(Add(ab, IntLit(ak-bk)), bb)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", Bool, a, b)
}

// knownSelect: contents of initial heap symbols at literal references (package-level tables).
var knownSelect = map[*Term]map[int64]*Term{}

func Select(a, i *Term) *Term {
	if a.sort.kind != KArray {
		panic("select on non array " + a.sort.name + " op " + a.op)
	}
	x := a
	for n := 0; n < 400; n++ {
		if x.op == "store" {
			if x.args[1] == i {
				return x.args[2]
			}
			if distinctTerms(x.args[1], i) {
				x = x.args[0]
				continue
			}
		}
		break
	}
	if x.op == "constarr" {
		return x.args[0]
	}
	if i.op == "int" {
		if m, ok := knownSelect[x]; ok {
			if v, ok := m[i.ival]; ok {
				return v
			}
		}
	}
	if x.op == "ite" && len(x.args) == 3 {
		// push selects into conditionals when it simplifies both sides
		l, r := Select(x.args[1], i), Select(x.args[2], i)
		if l == r {
			return l
		}
		if l.op != "select" || r.op != "select" {
			return Ite(x.args[0], l, r)
		}
	}
	return mk("select", x.sort.elem, x, i)
}

func Store(a, i, v *Term) *Term {
	if v.sort != a.sort.elem {
		panic(fmt.Sprintf("store sort mismatch: array %s value %s (%s)", a.sort.name, v.sort.name, v.op))
	}
	if a.op == "store" && a.args[1] == i {
		return Store(a.args[0], i, v)
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return mk("store", a.sort, a, i, v)
}

func ConstArr(s *Sort, v *Term) *Term { return mk("constarr", s, v) }

func MkDT(d *DT, args ...*Term) *Term {
	if len(args) != len(d.fields) {
		panic("mk arity " + d.name)
	}
	for i, a := range args {
		if a.sort != d.sorts[i] {
			panic(fmt.Sprintf("mk %s field %s: sort %s, want %s (%s)", d.name, d.fields[i], a.sort.name, d.sorts[i].name, a.op))
		}
	}
	// eta: mk(sel0 x, sel1 x, ...) = x
	if len(args) > 0 && strings.HasPrefix(args[0].op, "sel:") {
		x := args[0].args[0]
		ok := x.sort == DTSort(d)
		for i, a := range args {
			if !ok || a.op != selOp(d, i) || a.args[0] != x {
				ok = false
				break
			}
		}
		if ok {
			return x
		}
	}
	return mk("mk:"+d.name, DTSort(d), args...)
}

func selOp(d *DT, i int) string { return fmt.Sprintf("sel:%s:%d", d.name, i) }

func Sel(d *DT, i int, x *Term) *Term {
	if x.sort != DTSort(d) {
		panic(fmt.Sprintf("sel %s.%s on %s", d.name, d.fields[i], x.sort.name))
	}
	if x.op == "mk:"+d.name {
		return x.args[i]
	}
	if x.op == "ite" {
		l, r := Sel(d, i, x.args[1]), Sel(d, i, x.args[2])
		so := selOp(d, i)
		if l == r || !(l.op == so && r.op == so) {
			return Ite(x.args[0], l, r)
		}
	}
	return mk(selOp(d, i), d.sorts[i], x)
}

func UpdDT(d *DT, x *Term, i int, v *Term) *Term {
	args := make([]*Term, len(d.fields))
	for j := range d.fields {
		if j == i {
			args[j] = v
		} else {
			args[j] = Sel(d, j, x)
		}
	}
	return MkDT(d, args...)
}

func UF(name string, s *Sort, args ...*Term) *Term { return mk("uf:"+name, s, args...) }

func Quant(op string, vars []*Term, body *Term, pats ...[]*Term) *Term {
	if isLit(body) {
		return body
	}
	// drop unused variables
	var used []*Term
	for _, v := range vars {
		for _, f := range body.free {
			if f == v {
				used = append(used, v)
				break
			}
		}
	}
	if len(used) == 0 {
		return body
	}
	var good [][]*Term
	for _, p := range pats {
		ok := true
		for _, t := range p {
			ok = ok && patOK(t)
		}
		if ok {
			good = append(good, p)
		}
	}
	pats = good
	return intern(Term{op: op, sort: Bool, args: []*Term{body}, bvars: used, pats: pats})
}
func Forall(vars []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", vars, body, pats...)
}
func Exists(vars []*Term, body *Term) *Term {
	return Quant("exists", vars, body)
}

// Interfaces.
var IfNil = mk("ifnil", Ifc)

func BoxOf(b *Box, x *Term) *Term {
	if x.op == "unbox:"+b.ctor {
		// only equal if the box is of that type; keep explicit
	}
	return mk("box:"+b.ctor, Ifc, x)
}
func Unbox(b *Box, x *Term) *Term {
	if x.op == "box:"+b.ctor {
		return x.args[0]
	}
	if x.op == "ite" {
		l, r := x.args[1], x.args[2]
		if strings.HasPrefix(l.op, "box:") || strings.HasPrefix(r.op, "box:") {
			return Ite(x.args[0], Unbox(b, l), Unbox(b, r))
		}
	}
	return mk("unbox:"+b.ctor, b.sort, x)
}
func IsBox(b *Box, x *Term) *Term {
	if strings.HasPrefix(x.op, "box:") {
		return BoolLit(x.op == "box:"+b.ctor)
	}
	if x.op == "ifnil" {
		return False
	}
	if x.op == "ite" {
		return Ite(x.args[0], IsBox(b, x.args[1]), IsBox(b, x.args[2]))
	}
	return mk("isbox:"+b.ctor, Bool, x)
}

// Subst replaces constants/terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = f(a)
			ch = ch || args[i] != a
		}
		r := t
		if ch {
			r = rebuild(t, args)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch {
	case t.op == "and":
		return And(a...)
	case t.op == "or":
		return Or(a...)
	case t.op == "not":
		return Not(a[0])
	case t.op == "=>":
		return Implies(a[0], a[1])
	case t.op == "ite":
		return Ite(a[0], a[1], a[2])
	case t.op == "=":
		return Eq(a[0], a[1])
	case t.op == "<":
		return Lt(a[0], a[1])
	case t.op == "<=":
		return Le(a[0], a[1])
	case t.op == "+" && t.sort == Int:
		return Add(a[0], a[1])
	case t.op == "-" && t.sort == Int:
		return Sub(a[0], a[1])
	case t.op == "select":
		return Select(a[0], a[1])
	case t.op == "store":
		return Store(a[0], a[1], a[2])
	case strings.HasPrefix(t.op, "sel:"):
		p := strings.LastIndex(t.op, ":")
		i, _ := strconv.Atoi(t.op[p+1:])
		return Sel(dts[t.op[4:p]], i, a[0])
	case strings.HasPrefix(t.op, "unbox:"):
		return Unbox(boxByCtor[t.op[6:]], a[0])
	case strings.HasPrefix(t.op, "isbox:"):
		return IsBox(boxByCtor[t.op[6:]], a[0])
	case t.op == "forall" || t.op == "exists":
		return Quant(t.op, t.bvars, a[0])
	}
	return intern(Term{op: t.op, sort: t.sort, args: a, ival: t.ival, sval: t.sval})
}

var boxByCtor = map[string]*Box{}

func patOK(t *Term) bool {
	if len(t.free) == 0 && (t.op == "ite" || t.op == "store") && t.sort.kind != KBool {
		return true
	}
	switch t.op {
	case "select", "const", "bvar", "int", "str":
	case "+":
	default:
		if !strings.HasPrefix(t.op, "uf:") && !strings.HasPrefix(t.op, "sel:") {
			return false
		}
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return true
}
