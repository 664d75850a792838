package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp/syntax"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Regular expressions given by literals are compared by what they match: the automaton that a leftmost-first search runs from a fixed start
// (states are priority-ordered thread lists cut at the first match) is determinised and minimised. Two expressions with the same automaton
// find the same matches in every string. Expressions with empty-width assertions keep their text.

type reInfo struct {
	canon  string
	minLen int
}

var reTab = map[string]*reInfo{}

func reOf(pat string) *reInfo {
	if r, ok := reTab[pat]; ok {
		return r
	}
	r := reCompile(pat)
	reTab[pat] = r
	return r
}

func reCompile(pat string) *reInfo {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	prog, err := syntax.Compile(re.Simplify())
	if err != nil {
		return nil
	}
	cuts := map[rune]bool{0: true}
	for _, in := range prog.Inst {
		switch in.Op {
		case syntax.InstEmptyWidth:
			return nil
		case syntax.InstRune, syntax.InstRune1:
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				return nil
			}
			if len(in.Rune) == 1 {
				cuts[in.Rune[0]] = true
				cuts[in.Rune[0]+1] = true
			}
			for i := 0; i+1 < len(in.Rune); i += 2 {
				cuts[in.Rune[i]] = true
				cuts[in.Rune[i+1]+1] = true
			}
		case syntax.InstRuneAnyNotNL:
			cuts['\n'] = true
			cuts['\n'+1] = true
		}
	}
	var alpha []rune
	for c := range cuts {
		if c <= 0x10FFFF {
			alpha = append(alpha, c)
		}
	}
	sort.Slice(alpha, func(i, j int) bool { return alpha[i] < alpha[j] })
	// ordered closure
	closure := func(starts []uint32) (ts []uint32, match bool) {
		seen := map[uint32]bool{}
		var walk func(pc uint32) bool
		walk = func(pc uint32) bool { // true: a match cuts off everything of lower priority
			if seen[pc] {
				return false
			}
			seen[pc] = true
			in := &prog.Inst[pc]
			switch in.Op {
			case syntax.InstAlt, syntax.InstAltMatch:
				return walk(in.Out) || walk(in.Arg)
			case syntax.InstCapture, syntax.InstNop:
				return walk(in.Out)
			case syntax.InstMatch:
				return true
			case syntax.InstFail:
				return false
			}
			ts = append(ts, pc)
			return false
		}
		for _, s := range starts {
			if walk(s) {
				match = true
				break
			}
		}
		return
	}
	type state struct {
		ts    []uint32
		match bool
		next  []int
	}
	var states []*state
	ids := map[string]int{}
	add := func(starts []uint32) int {
		ts, m := closure(starts)
		k := fmt.Sprint(ts, m)
		if i, ok := ids[k]; ok {
			return i
		}
		ids[k] = len(states)
		states = append(states, &state{ts: ts, match: m})
		return len(states) - 1
	}
	add([]uint32{uint32(prog.Start)})
	for i := 0; i < len(states); i++ {
		if len(states) > 500 {
			return nil
		}
		for _, c := range alpha {
			var outs []uint32
			for _, t := range states[i].ts {
				if prog.Inst[t].MatchRune(c) {
					outs = append(outs, prog.Inst[t].Out)
				}
			}
			states[i].next = append(states[i].next, add(outs))
		}
	}
	// minimise
	cls := make([]int, len(states))
	for i, s := range states {
		if s.match {
			cls[i] = 1
		}
	}
	n := 0
	for {
		sig := map[string]int{}
		nc := make([]int, len(states))
		for i, s := range states {
			var b strings.Builder
			fmt.Fprint(&b, cls[i])
			for _, x := range s.next {
				fmt.Fprint(&b, ",", cls[x])
			}
			k := b.String()
			if _, ok := sig[k]; !ok {
				sig[k] = len(sig)
			}
			nc[i] = sig[k]
		}
		cls = nc
		if len(sig) == n {
			break
		}
		n = len(sig)
	}
	// canonical text: states in breadth-first order, ranges merged
	rep := map[int]int{}
	for i := len(states) - 1; i >= 0; i-- {
		rep[cls[i]] = i
	}
	order := []int{cls[0]}
	num := map[int]int{cls[0]: 0}
	var b strings.Builder
	minLen := -1
	depth := map[int]int{cls[0]: 0}
	for i := 0; i < len(order); i++ {
		s := states[rep[order[i]]]
		if s.match && minLen < 0 {
			minLen = depth[order[i]]
		}
		fmt.Fprintf(&b, "%v[", s.match)
		last := -1
		for j, c := range alpha {
			t := cls[s.next[j]]
			if _, ok := num[t]; !ok {
				num[t] = len(order)
				order = append(order, t)
				depth[t] = depth[order[i]] + 1
			}
			if num[t] != last {
				fmt.Fprintf(&b, "%x:%d ", c, num[t])
				last = num[t]
			}
		}
		b.WriteString("]")
	}
	if minLen < 0 {
		minLen = 0
	}
	return &reInfo{"automaton:" + b.String(), minLen}
}

var reMethods = map[string]bool{"MatchString": true, "FindString": true, "FindAllString": true, "FindStringIndex": true, "FindAllStringIndex": true, "ReplaceAllStringFunc": true}

// regexCall gives the methods of literal regular expressions their meaning up to equality of what they match.
func (x *Ex) regexCall(st *State, fr *Frame, pos token.Pos, key string, args []Val, ats []types.Type, res *types.Tuple) (Val, bool) {
	m := strings.TrimPrefix(key, "(*regexp.Regexp).")
	if m == key || !reMethods[m] {
		return nil, false
	}
	r, ok := args[0].(*Term)
	if !ok || !strings.HasPrefix(r.op, "uf:regexp.MustCompile") && !strings.HasPrefix(r.op, "regexp.MustCompile") || len(r.args) != 1 || r.args[0].op != "str" {
		return nil, false
	}
	in := reOf(r.args[0].sval)
	if in == nil {
		return nil, false
	}
	x.trusted["pure function: "+key+" (expressions compared by their automata)"] = true
	canon := StrLit(in.canon)
	if m == "ReplaceAllStringFunc" {
		return x.replaceFunc(st, fr, canon, in, args, ats, pos), true
	}
	ts := append([]*Term{canon}, x.flatArgs(st, args[1:], ats[1:])...)
	v := x.pureResult(st, key, ts, res.At(0).Type())
	if m == "FindAllString" {
		x.findFacts(in, canon, ts[1], ts[2])
	}
	return v, true
}

type weave struct{ s, a, r, n *Term }

// replaceFunc: the result of ReplaceAllStringFunc depends on the string, on what the expression matches in it and on what the function
// returns for each match: two results over the same string with the same replacements are equal.
func (x *Ex) replaceFunc(st *State, fr *Frame, canon *Term, in *reInfo, args []Val, ats []types.Type, pos token.Pos) Val {
	if len(x.bvs) > 0 {
		panic(unsupported("ReplaceAllStringFunc under a quantifier"))
	}
	strT := types.Typ[types.String]
	s := x.toTerm(st, args[1], strT)
	fa := "(*regexp.Regexp).FindAllString"
	ts := []*Term{canon, s, IntLit(-1)}
	n, ms := UF(ufSig(fa+".len", ts), Int, ts...), UF(ufSig(fa+".arr", ts), ArrSort(Int, Str), ts...)
	x.findFacts(in, canon, s, IntLit(-1))
	if c, ok := args[2].(*Closure); ok && c.fn != nil {
		if !effectFree(c.fn, map[*ssa.Function]bool{}) {
			panic(unsupported("a function with effects is passed to a library function"))
		}
		if !fr.spec && x.muted == 0 {
			// the function itself must not fail on a match
			sc := st.clone()
			mv := x.fresh("match", Str)
			x.assumeRaw(Le(IntLit(int64(in.minLen)), StrLen(mv)))
			x.callValue(sc, fr, c, ats[2], []Val{mv}, []types.Type{strT}, pos)
		}
	}
	a := x.fresh("replaced", ArrSort(Int, Str))
	iv := BVar("i", Int)
	x.bvs = append(x.bvs, iv)
	sf := &Frame{fn: fr.fn, env: map[ssa.Value]Val{}, parent: fr.parent, depth: fr.depth, spec: true, cs: fr.cs + ">replace", info: fr.info}
	body := x.toTerm(st, x.callValue(st.clone(), sf, args[2], ats[2], []Val{Select(ms, iv)}, []types.Type{strT}, pos), strT)
	x.bvs = x.bvs[:len(x.bvs)-1]
	x.assumeRaw(Forall([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, n)), Eq(Select(a, iv), body)), []*Term{Select(a, iv)}))
	wt := []*Term{canon, s, a}
	r := UF(ufSig("replaceAllStringFunc", wt), Str, wt...)
	for _, w := range x.weaves {
		jv := BVar("j", Int)
		x.assumeRaw(Implies(And(Eq(w.s, s), Forall([]*Term{jv}, Implies(And(Le(IntLit(0), jv), Lt(jv, n)), Eq(Select(a, jv), Select(w.a, jv))))), Eq(w.r, r)))
	}
	x.weaves = append(x.weaves, weave{s, a, r, n})
	return r
}

func (x *Ex) findFacts(in *reInfo, canon, s, cnt *Term) {
	ts := []*Term{canon, s, cnt}
	key := "(*regexp.Regexp).FindAllString"
	match := UF(ufSig("(*regexp.Regexp).MatchString", []*Term{canon, s}), Bool, canon, s)
	ln := UF(ufSig(key+".len", ts), Int, ts...)
	a := UF(ufSig(key+".arr", ts), ArrSort(Int, Str), ts...)
	k := "refind|" + itoa(ln.id)
	if x.noted[k] {
		return
	}
	x.noted[k] = true
	if cnt.op == "int" && cnt.ival < 0 {
		x.assumeQ(Eq(Lt(IntLit(0), ln), match), ln)
	}
	if len(s.free) == 0 && len(cnt.free) == 0 {
		iv := BVar("i", Int)
		x.assumeRaw(Forall([]*Term{iv}, Implies(And(Le(IntLit(0), iv), Lt(iv, ln)), Le(IntLit(int64(in.minLen)), StrLen(Select(a, iv)))), []*Term{Select(a, iv)}))
	}
}
