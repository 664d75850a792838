package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Printing.

var nativeOps = map[string]bool{ // string operations with a native SMT-LIB meaning
	"str.++": true, "str.len": true, "str.substr": true, "str.prefixof": true, "str.suffixof": true,
	"str.contains": true, "str.indexof": true, "str.<": true, "str.at": true, "str.to_code": true, "str.replace": true,
	"str.replace_all": true, "str.from_code": true, "str.<=": true, "str.is_digit": true,
}

type printer struct {
	native   bool
	decls    bytes.Buffer
	defs     bytes.Buffer
	declared map[string]bool
	named    map[*Term]string
	refs     map[*Term]int
	strs     map[string]bool
	dtUsed   map[string]bool
	usorts   map[string]bool
	boxUsed  map[string]bool
	ufs      map[string]string
	consts   []string
	regexes  bool
}

func quote(s string) string {
	ok := true
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '!' || c == '?' || c == '$') {
			ok = false
		}
	}
	if ok && s != "" && !(s[0] >= '0' && s[0] <= '9') && s != "_" && s != "." {
		return s
	}
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, s) + "|"
}

func (p *printer) sortName(s *Sort) string {
	switch s.kind {
	case KStr:
		if p.native {
			return "String"
		}
		return "Str"
	case KArray:
		return "(Array " + p.sortName(s.key) + " " + p.sortName(s.elem) + ")"
	case KDT, KUnint:
		return quote(s.name)
	}
	return s.name
}

func (p *printer) needSort(s *Sort) {
	switch s.kind {
	case KArray:
		p.needSort(s.key)
		p.needSort(s.elem)
	case KDT:
		if !p.dtUsed[s.name] {
			p.dtUsed[s.name] = true
			for _, f := range dts[s.name].sorts {
				p.needSort(f)
			}
		}
	case KUnint:
		p.usorts[s.name] = true
	case KIf:
		if !p.dtUsed["Iface"] {
			p.dtUsed["Iface"] = true
		}
	}
}

func strEsc(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			b.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&b, `\u{%x}`, c)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (p *printer) scan(t *Term, seen map[*Term]bool) {
	p.refs[t]++
	if seen[t] {
		return
	}
	seen[t] = true
	p.needSort(t.sort)
	if strings.HasPrefix(t.op, "box:") {
		p.boxUsed[t.op[4:]] = true
		p.needSort(t.args[0].sort)
	}
	if strings.HasPrefix(t.op, "unbox:") {
		p.boxUsed[t.op[6:]] = true
	}
	if strings.HasPrefix(t.op, "isbox:") {
		p.boxUsed[t.op[6:]] = true
		p.needSort(boxByCtor[t.op[6:]].sort)
	}
	if t.op == "str" {
		p.strs[t.sval] = true
	}
	for _, v := range t.bvars {
		p.needSort(v.sort)
	}
	for _, a := range t.args {
		p.scan(a, seen)
	}
	for _, ps := range t.pats {
		for _, a := range ps {
			p.scan(a, seen)
		}
	}
}

func litName(s string) string { return quote("lit:" + strconv.Quote(s)) }

func (p *printer) head(t *Term) string {
	switch {
	case t.op == "constarr":
		return "((as const " + p.sortName(t.sort) + ")"
	case strings.HasPrefix(t.op, "mk:"):
		return "(" + quote("mk_"+t.op[3:])
	case strings.HasPrefix(t.op, "sel:"):
		i := strings.LastIndex(t.op, ":")
		n, _ := strconv.Atoi(t.op[i+1:])
		d := dts[t.op[4:i]]
		return "(" + quote(d.name+"."+d.fields[n])
	case strings.HasPrefix(t.op, "box:"):
		return "(" + quote(t.op)
	case strings.HasPrefix(t.op, "unbox:"):
		return "(" + quote(t.op)
	case strings.HasPrefix(t.op, "isbox:"):
		return "((_ is " + quote("box:"+t.op[6:]) + ")"
	case strings.HasPrefix(t.op, "uf:"):
		n := t.op[3:]
		if p.native && nativeOps[n] {
			return "(" + n
		}
		if nativeOps[n] {
			n = "u." + strings.ReplaceAll(n, "++", "cat")
		}
		key := quote(n)
		if _, ok := p.ufs[key]; !ok {
			var b strings.Builder
			b.WriteString("(declare-fun " + key + " (")
			for _, a := range t.args {
				b.WriteString(p.sortName(a.sort) + " ")
			}
			b.WriteString(") " + p.sortName(t.sort) + ")\n")
			p.ufs[key] = b.String()
		}
		if len(t.args) == 0 {
			return key
		}
		return "(" + key
	case strings.HasPrefix(t.op, "inre:"): // native only
		p.regexes = true
		return "(str.in_re"
	}
	return "(" + t.op
}

// str prints t; shared closed subterms are given definitions.
func (p *printer) str(t *Term, bound map[*Term]string) string {
	if n, ok := bound[t]; ok {
		return n
	}
	if n, ok := p.named[t]; ok {
		return n
	}
	switch t.op {
	case "true", "false":
		return t.op
	case "ifnil":
		return "ifnil"
	case "int":
		if t.ival < 0 {
			return fmt.Sprintf("(- %d)", -t.ival)
		}
		return strconv.FormatInt(t.ival, 10)
	case "real":
		return t.sval
	case "str":
		if p.native {
			return strEsc(t.sval)
		}
		return litName(t.sval)
	case "const":
		n := quote(t.sval)
		if !p.declared[n] {
			p.declared[n] = true
			p.consts = append(p.consts, "(declare-const "+n+" "+p.sortName(t.sort)+")\n")
		}
		return n
	case "bvar":
		return quote(t.sval)
	case "forall", "exists":
		var b strings.Builder
		b.WriteString("(" + t.op + " (")
		for _, v := range t.bvars {
			b.WriteString("(" + quote(v.sval) + " " + p.sortName(v.sort) + ")")
		}
		b.WriteString(") ")
		body := p.strLet(t.args[0], bound, t.bvars)
		if len(t.pats) > 0 {
			b.WriteString("(! " + body)
			for _, ps := range t.pats {
				b.WriteString(" :pattern (")
				for i, a := range ps {
					if i > 0 {
						b.WriteByte(' ')
					}
					b.WriteString(p.str(a, bound))
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		} else {
			b.WriteString(body)
		}
		b.WriteString(")")
		return b.String()
	}
	h := p.head(t)
	if len(t.args) == 0 {
		return h
	}
	var b strings.Builder
	b.WriteString(h)
	for _, a := range t.args {
		b.WriteByte(' ')
		b.WriteString(p.str(a, bound))
	}
	if strings.HasPrefix(t.op, "inre:") {
		b.WriteByte(' ')
		b.WriteString(t.op[5:])
	}
	b.WriteByte(')')
	s := b.String()
	if len(t.free) == 0 && t.sort.kind != KBool && (t.op == "ite" || t.op == "store") {
		n := fmt.Sprintf("t$%d", t.id)
		fmt.Fprintf(&p.defs, "(declare-const %s %s)\n(assert (= %s %s))\n", n, p.sortName(t.sort), n, s)
		p.named[t] = n
		return n
	}
	if len(t.free) == 0 && p.refs[t] > 1 && len(s) > 24 {
		n := fmt.Sprintf("t$%d", t.id)
		fmt.Fprintf(&p.defs, "(define-fun %s () %s %s)\n", n, p.sortName(t.sort), s)
		p.named[t] = n
		return n
	}
	return s
}

// strLet prints a quantifier body with let for shared open subterms.
func (p *printer) strLet(t *Term, bound map[*Term]string, bv []*Term) string {
	cnt := map[*Term]int{}
	var order []*Term
	inner := map[*Term]bool{}
	var walk func(x *Term)
	allow := map[*Term]bool{}
	for _, v := range bv {
		allow[v] = true
	}
	walk = func(x *Term) {
		if len(x.free) == 0 || bound[x] != "" {
			return
		}
		cnt[x]++
		if cnt[x] > 1 {
			return
		}
		if x.op == "forall" || x.op == "exists" {
			// do not hoist out of the inner quantifier, but count subterms not depending on its variables
			walkInner(x, bound, cnt, &order, inner)
			order = append(order, x)
			return
		}
		for _, a := range x.args {
			walk(a)
		}
		order = append(order, x)
	}
	walk(t)
	nb := map[*Term]string{}
	for k, v := range bound {
		nb[k] = v
	}
	var pre strings.Builder
	n := 0
	for _, x := range order {
		if cnt[x] < 2 || len(x.args) == 0 || x == t || inner[x] {
			continue
		}
		s := p.str(x, nb)
		if len(s) < 24 {
			continue
		}
		nm := fmt.Sprintf("l$%d", x.id)
		fmt.Fprintf(&pre, "(let ((%s %s)) ", nm, s)
		nb[x] = nm
		n++
	}
	return pre.String() + p.str(t, nb) + strings.Repeat(")", n)
}

func walkInner(x *Term, bound map[*Term]string, cnt map[*Term]int, order *[]*Term, inner map[*Term]bool) {
	// subterms containing the inner quantifier's variables are left alone
}

// Script builds an SMT-LIB script asserting all of facts.
func Script(facts []*Term, native bool, opts string) string {
	p := &printer{native: native, declared: map[string]bool{}, named: map[*Term]string{}, refs: map[*Term]int{}, strs: map[string]bool{},
		dtUsed: map[string]bool{}, usorts: map[string]bool{}, boxUsed: map[string]bool{}, ufs: map[string]string{}}
	seen := map[*Term]bool{}
	for _, f := range facts {
		p.scan(f, seen)
	}
	// boxes may need more sorts
	for _, b := range boxOrder {
		if p.boxUsed[b.ctor] {
			p.needSort(b.sort)
			p.dtUsed["Iface"] = true
		}
	}
	var asserts bytes.Buffer
	for _, f := range facts {
		s := p.str(f, nil)
		fmt.Fprintf(&asserts, "(assert %s)\n", s)
	}
	var out bytes.Buffer
	out.WriteString(opts)
	out.WriteString("(set-logic ALL)\n")
	if !native {
		out.WriteString("(declare-sort Str 0)\n")
	}
	var us []string
	for u := range p.usorts {
		us = append(us, u)
	}
	sort.Strings(us)
	for _, u := range us {
		fmt.Fprintf(&out, "(declare-sort %s 0)\n", quote(u))
	}
	var dn []string
	for d := range p.dtUsed {
		if d != "Iface" {
			dn = append(dn, d)
		}
	}
	sort.Strings(dn)
	if p.dtUsed["Iface"] {
		dn = append(dn, "Iface")
	}
	if len(dn) > 0 {
		// order non-interface datatypes so that dependencies come first when no interface is involved
		out.WriteString("(declare-datatypes (")
		for _, d := range dn {
			fmt.Fprintf(&out, "(%s 0)", quote(d))
		}
		out.WriteString(") (\n")
		for _, d := range dn {
			if d == "Iface" {
				out.WriteString(" ((ifnil) (ifother (ifother.id Int))")
				for _, b := range boxOrder {
					if p.boxUsed[b.ctor] {
						fmt.Fprintf(&out, " (%s (%s %s))", quote("box:"+b.ctor), quote("unbox:"+b.ctor), p.sortName(b.sort))
					}
				}
				out.WriteString(")\n")
				continue
			}
			dt := dts[d]
			fmt.Fprintf(&out, " ((%s", quote("mk_"+d))
			for i, f := range dt.fields {
				fmt.Fprintf(&out, " (%s %s)", quote(d+"."+f), p.sortName(dt.sorts[i]))
			}
			out.WriteString("))\n")
		}
		out.WriteString("))\n")
	}
	if !native {
		var ss []string
		for s := range p.strs {
			ss = append(ss, s)
		}
		sort.Strings(ss)
		for _, s := range ss {
			fmt.Fprintf(&out, "(declare-const %s Str)\n", litName(s))
		}
		if len(ss) > 1 {
			out.WriteString("(assert (distinct")
			for _, s := range ss {
				out.WriteString(" " + litName(s))
			}
			out.WriteString("))\n")
		}
		if d, ok := p.ufs["u.str.len"]; ok {
			out.WriteString(d)
			delete(p.ufs, "u.str.len")
			for _, s := range ss {
				fmt.Fprintf(&out, "(assert (= (u.str.len %s) %d))\n", litName(s), len(s))
			}
			out.WriteString("(assert (forall ((x Str)) (! (>= (u.str.len x) 0) :pattern ((u.str.len x)))))\n")
			if p.strs[""] {
				fmt.Fprintf(&out, "(assert (forall ((x Str)) (! (=> (= (u.str.len x) 0) (= x %s)) :pattern ((u.str.len x)))))\n", litName(""))
			}
		}
	}
	for _, c := range p.consts {
		out.WriteString(c)
	}
	var un []string
	for u := range p.ufs {
		un = append(un, u)
	}
	sort.Strings(un)
	for _, u := range un {
		out.WriteString(p.ufs[u])
	}
	if !native {
		has := func(n string) bool { _, ok := p.ufs[n]; return ok }
		if has("u.str.cat") {
			out.WriteString("(assert (forall ((x Str) (y Str) (z Str)) (! (= (u.str.cat (u.str.cat x y) z) (u.str.cat x (u.str.cat y z))) :pattern ((u.str.cat (u.str.cat x y) z)))))\n")
			if p.strs[""] {
				fmt.Fprintf(&out, "(assert (forall ((x Str) (y Str)) (! (=> (= (u.str.cat x y) %[1]s) (and (= x %[1]s) (= y %[1]s))) :pattern ((u.str.cat x y)))))\n", litName(""))
				fmt.Fprintf(&out, "(assert (forall ((x Str)) (! (= (u.str.cat x %[1]s) x) :pattern ((u.str.cat x %[1]s)))))\n(assert (forall ((x Str)) (! (= (u.str.cat %[1]s x) x) :pattern ((u.str.cat %[1]s x)))))\n", litName(""))
			}
		}
		if has("u.str.cat") && len(p.strs) <= 60 {
			var ss []string
			for s := range p.strs {
				ss = append(ss, s)
			}
			sort.Strings(ss)
			for _, a := range ss {
				if a == "" {
					continue
				}
				var pre, suf []string
				for _, b := range ss {
					if !strings.HasPrefix(b, a) {
						pre = append(pre, fmt.Sprintf("(not (= (u.str.cat %s x) %s))", litName(a), litName(b)))
					} else if r := b[len(a):]; p.strs[r] {
						pre = append(pre, fmt.Sprintf("(=> (= (u.str.cat %s x) %s) (= x %s))", litName(a), litName(b), litName(r)))
					}
					if !strings.HasSuffix(b, a) {
						suf = append(suf, fmt.Sprintf("(not (= (u.str.cat x %s) %s))", litName(a), litName(b)))
					}
				}
				if len(pre) > 0 {
					fmt.Fprintf(&out, "(assert (forall ((x Str)) (! (and %s) :pattern ((u.str.cat %s x)))))\n", strings.Join(pre, " "), litName(a))
				}
				if len(suf) > 0 {
					fmt.Fprintf(&out, "(assert (forall ((x Str)) (! (and %s) :pattern ((u.str.cat x %s)))))\n", strings.Join(suf, " "), litName(a))
				}
			}
		}
		if has("u.str.contains") {
			out.WriteString("(assert (forall ((x Str) (y Str) (z Str)) (! (=> (and (u.str.contains x y) (u.str.contains y z)) (u.str.contains x z)) :pattern ((u.str.contains x y) (u.str.contains y z)))))\n")
		}
	}
	out.Write(p.defs.Bytes())
	out.Write(asserts.Bytes())
	out.WriteString("(check-sat)\n")
	return out.String()
}

// Running solvers.

type SolveResult struct {
	status  string // unsat, sat, unknown
	backend string
	secs    float64
	output  string
	native  bool
}

var workTmp string
var fileSeq int
var fileMu sync.Mutex

func scriptFile(s string) string {
	fileMu.Lock()
	fileSeq++
	n := fileSeq
	fileMu.Unlock()
	f := filepath.Join(workTmp, fmt.Sprintf("q%d.smt2", n))
	os.WriteFile(f, []byte(s), 0644)
	return f
}

type backend struct {
	name   string
	native bool
	opts   string
	args   func(f string, t float64) []string
}

var backends = map[string]*backend{
	"z3": {name: "z3-new", args: func(f string, t float64) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", int(t*1000)), f}
	}},
	"z3nombqi": {name: "z3-new(ematch)", args: func(f string, t float64) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", int(t*1000)), "smt.mbqi=false", "smt.auto_config=false", f}
	}},
	"z3old": {name: "z3-4.8", args: func(f string, t float64) []string {
		return []string{"z3", fmt.Sprintf("-t:%d", int(t*1000)), "smt.mbqi=false", "smt.auto_config=false", f}
	}},
	"z3rel": {name: "z3-4.8(ematch,relevancy=0)", args: func(f string, t float64) []string {
		return []string{"z3", fmt.Sprintf("-t:%d", int(t*1000)), "smt.mbqi=false", "smt.auto_config=false", "smt.relevancy=0", f}
	}},
	"cvc5": {name: "cvc5", args: func(f string, t float64) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", int(t*1000)), "--full-saturate-quant", f}
	}},
	"z3s": {name: "z3-new(strings)", native: true, args: func(f string, t float64) []string {
		return []string{"z3-new", fmt.Sprintf("-t:%d", int(t*1000)), f}
	}},
	"cvc5s": {name: "cvc5(strings)", native: true, args: func(f string, t float64) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", int(t*1000)), "--strings-exp", f}
	}},
}

var sem = make(chan struct{}, 8)

func runOne(ctx context.Context, b *backend, file string, timeout float64) SolveResult {
	sem <- struct{}{}
	defer func() { <-sem }()
	if ctx.Err() != nil {
		return SolveResult{status: "cancelled", backend: b.name}
	}
	c, cancel := context.WithTimeout(ctx, time.Duration((timeout+2)*float64(time.Second)))
	defer cancel()
	a := b.args(file, timeout)
	t0 := time.Now()
	cmd := exec.CommandContext(c, a[0], a[1:]...)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0).Seconds()
	s := strings.TrimSpace(string(out))
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	st := "unknown"
	switch strings.TrimSpace(first) {
	case "unsat":
		st = "unsat"
	case "sat":
		st = "sat"
	default:
		if strings.Contains(s, "error") {
			st = "error"
		}
	}
	return SolveResult{status: st, backend: b.name, secs: d, output: s, native: b.native}
}

// Solve runs the named back ends in parallel; the first unsat (or sat) answer wins.
func Solve(facts []*Term, names []string, timeout float64) SolveResult {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan SolveResult, len(names))
	files := map[bool]string{}
	for _, n := range names {
		b := backends[n]
		if _, ok := files[b.native]; !ok {
			printMu.Lock()
			s := Script(facts, b.native, "")
			printMu.Unlock()
			files[b.native] = scriptFile(s)
		}
	}
	for _, n := range names {
		b := backends[n]
		go func() { ch <- runOne(ctx, b, files[b.native], timeout) }()
	}
	var last SolveResult
	var errs []string
	total := 0.0
	anyNative := false
	for _, n := range names {
		anyNative = anyNative || backends[n].native
	}
	for range names {
		r := <-ch
		total += r.secs
		if r.status == "sat" && anyNative && !r.native {
			// strings are uninterpreted in this back end: not a refutation
			r.status = "unknown"
		}
		if r.status == "unsat" || r.status == "sat" {
			r.secs = total
			if !keepFiles {
				for _, f := range files {
					os.Remove(f)
				}
			}
			return r
		}
		if r.status == "error" {
			errs = append(errs, r.backend+": "+r.output)
		}
		last = r
	}
	last.secs = total
	if len(errs) > 0 {
		last.output = strings.Join(errs, "\n")
	}
	if last.status == "error" {
		last.status = "unknown"
	}
	for _, f := range files {
		last.output += "\n[query: " + f + "]"
	}
	return last
}

var printMu sync.Mutex
var keepFiles = os.Getenv("GOVC_KEEP") != ""
